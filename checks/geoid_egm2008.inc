// EGM2008 geoid heights in micrometres on the 1-degree grid [longitude 0..359][latitude -90..90], as published with the pinned commit
{-30149969,-29816626,-28408949,-22615730,-16872871,-14648945,-13570190,-14070108,-12057422,-6439230,-5006723,-6030280,-2654260,1317315,5947898,11738213,14642880,14586040,11672338,14040472,14231225,9679871,10202193,11098524,12859192,13679619,13497942,13499191,13553210,14386868,15175258,18147842,20888548,22911665,24581533,27201002,27488430,27403103,26535250,26401445,25184280,23813904,23280935,22927958,22980623,20986975,20672783,18749825,24182817,17295855,17650110,17015287,16638710,16835472,17114292,17945747,18653830,19777771,20127485,21270184,21645136,21363945,21012863,20701876,20381744,20079466,19188766,18255947,17391422,16870106,16575096,16257618,15547394,14678263,14163856,13482782,12780922,12094779,11310172,11021094,11173574,11720434,13073680,15196397,16029364,17091249,17903189,18286110,18321600,17953934,17225084,17061350,17173393,16799322,17798765,20198418,25461971,25751644,25989849,24529797,23734093,24038895,24690048,25539978,23870285,22604511,24427071,27565670,28415192,30394156,30859005,30334974,30523937,30060116,29459839,27574280,25820940,25555138,28047937,30181688,34403751,38505619,40990845,44937370,47878971,48981804,47931221,46552792,49058594,49710361,50854534,50669304,50591808,52894386,48610222,46767448,47727547,47441711,47260361,46821411,45061878,45475769,46548271,46580582,45913227,46424702,46554550,46852863,47549854,46637882,47879303,49201233,50036671,48989395,49945282,51029835,50437359,49031235,48998871,48495789,48781719,50287758,50640068,49064060,46589031,43401222,43195423,41595722,38596947,37612801,36150120,34250397,31865826,29796581,27965647,26278421,23111614,20441156,17658163,16178350,14898501},
{-30149969,-29807762,-28307735,-22435736,-16800203,-14620156,-13510246,-13946075,-11556341,-5728369,-4572024,-5886010,-2239252,2024151,6316577,11696470,14563991,15623937,13151427,14492345,14551586,9776443,10491968,11442440,14078649,15312371,14471859,13965837,14029366,14457631,15599806,17850031,20804625,22414206,24125608,25868464,27580059,27331240,26443787,26206806,24872229,23525106,22983421,22474951,21881533,20852678,21120325,20803564,21819096,18027958,17905540,17535814,17332142,17279793,17752005,18358158,20714298,20022488,20491812,21134495,22943810,22360723,22270893,21804508,21408251,21144800,20284830,19353283,18274900,17464798,16813793,16333521,15646134,14866468,14267331,13563540,12785030,11844646,11140082,10823695,10236609,10303811,14081613,12792846,15125163,15414281,16643101,18430502,18359936,17593538,17032726,16813057,17015495,16517515,17464600,19507952,24651327,26330261,25556873,23834536,22356031,22956589,23766520,24267780,22785353,22169512,23386166,26699928,28145731,30466948,31115738,31347950,31236412,31450037,30613953,28139437,25542870,25994526,28044109,28292135,31760813,36105366,38747776,41842934,46097549,48400520,47552685,45623482,47097675,48912655,49712364,49611809,51102829,51991203,48888840,48643925,48453335,47163155,46251118,45499176,44926243,45003185,45530910,45174107,44282116,44378464,45180576,46056587,46859909,46533897,47244114,47327415,48818184,48195896,48608974,49815556,49362423,48564129,48399803,48104584,48330215,49212479,50231873,49010395,45988449,43586212,43007595,41588360,38554951,37553513,35911125,34576942,31821278,29844904,28107359,26277761,23224802,20476967,17636425,16172663,14898501},
{-30149969,-29797838,-28200001,-22254786,-16737032,-14618143,-13445266,-13768703,-11120341,-5114872,-4142484,-5652175,-1791663,2818729,6711015,11556225,14593466,17138037,14829814,14743215,14753764,10042459,10799239,11884191,14622165,16566687,16167768,14411769,14447349,14791362,15817726,17943100,20598591,22055948,23946854,25986992,27162998,27117493,26419180,25851578,24934740,23406839,22684423,21913857,21629267,21512896,21016132,21086344,21209005,18570284,18449387,18239319,17743816,17695763,18429817,19214121,19772345,22661776,23949158,22124937,23212526,24199594,23452389,22593035,22139900,21997608,21354366,20557430,19357529,18254816,17193293,16349525,15732551,15103322,14314396,13519246,12644447,11886296,11175013,10724274,10098482,9967274,10510039,11259329,12233545,13354210,15414208,17104971,17863447,17678339,16860966,16289297,16283224,16081133,15902869,17236444,20810125,25897627,26298674,25600246,24346836,22293917,22699085,23017820,23038452,22575493,24193672,25642128,27156300,30339182,31592220,31914694,31715141,31641733,31199583,27913927,25974089,25448677,26973850,27813984,29949228,34231068,37915333,40313076,45015797,46983128,47778847,44500504,46096344,48617401,47907700,48591358,51100113,50309887,50445210,50400978,49868454,47151417,45538147,44677151,44794296,44347076,44775803,44291786,42572762,43073963,44374577,45215073,45325466,45582474,46431602,46920025,47509548,47229733,46868416,48386848,47389568,48336002,48093864,47487907,47624428,48402695,49593353,48896595,45710033,44405460,42969868,41459152,38744080,37273781,35627132,34709534,31781094,29778643,28158134,26203432,23378513,20525190,17621037,16167908,14898501},
{-30149969,-29786921,-28084623,-22070719,-16682966,-14642978,-13383389,-13563991,-10702123,-4631016,-3739537,-5324286,-1302899,3647168,7149845,11397159,14680799,18781349,16270662,14689029,15027787,10475097,11169782,12755486,14709417,17303688,16953638,15087089,15056718,15196700,15726656,17691841,20349754,22516483,24446289,25889811,27926691,26908525,26233305,25181721,24965372,23710703,22497211,22166361,21520102,21831964,21023342,20906769,19692379,19065817,19066988,19133686,18742840,18092072,18745117,19782059,20364687,21046352,21416868,24619633,25474024,24989929,24785172,24189262,23464252,22854567,22432745,21810244,20647863,19173162,17666464,16642788,15763484,15183267,14298702,13494476,12648778,11936824,11244829,10592579,9983447,9426523,9673810,9685207,10859798,11755656,14202419,15737124,17277100,17353321,17132303,16588726,15951560,15210512,14813842,16044010,18106405,24839666,25967533,25166636,24315460,22861290,22759193,22177753,22224289,22239086,23006243,23576811,25617178,28118351,30182528,32080795,33211525,33343914,32289116,30093815,27742163,26389164,28036339,28959717,29550306,32358025,35880447,39068214,42294598,44093254,46493160,43904743,45239590,47467789,48612152,47461246,49938778,50180088,51688313,52656513,50161049,47867653,45942791,44817310,44635841,44606941,44245579,43151852,41743496,42497669,43640076,43847923,44271084,44503597,45109467,45655003,47026409,46489922,44623116,46423691,46173141,46633957,47735123,46917759,47129753,47342579,49091240,48575649,45366287,44335510,42843235,41408123,39045528,36824062,35577530,34582691,31855553,29408533,28026897,26024824,23590693,20572624,17611572,16164183,14898501},
{-30149969,-29774981,-27962280,-21886223,-16637695,-14695971,-13336897,-13327973,-10336526,-4284101,-3373670,-4927580,-813546,4463135,7604995,11317915,14822389,20152882,17197462,14309414,15280842,11437626,11555526,13075022,14900858,17227009,17367249,16094912,15895248,15694637,16301085,17686329,19379215,21540007,24336504,26598221,28020180,27226919,25997505,24831312,24518559,24138079,22583305,22260897,21742762,22862055,21445122,21189981,20218523,19639162,19608467,19706558,19598864,19424124,19393950,20010189,20730366,21694420,22921602,22817366,22678631,23225563,23696711,26048601,25180073,24066965,24128447,22971752,21673664,20525169,18465527,16897295,15828619,15110932,14436731,13667586,12874151,12132083,11416327,10518045,9752289,9149563,9005525,9172144,9799846,10136953,11798911,14231119,16415907,16912685,16806253,16398960,15669194,14531278,16696404,18192455,19086498,24229256,25712126,24728184,23607317,21848351,20350803,20818098,21083086,20485552,21417818,22410347,23990028,26052402,28788500,30911411,32146393,33570629,33578369,33229362,30268774,27592915,28635155,28656767,28180576,29541056,32686539,35882866,39020367,42256275,44668266,44347233,44170559,45787457,48780800,46384823,47210075,49634491,50796494,52703541,50163746,48485306,46597717,45492474,45781178,44998783,43794098,42541828,41615940,41921848,42977028,42976433,43124981,43999962,44471813,45284485,45687626,45286514,42618324,44723186,44931316,44803207,46789268,46221581,46326366,46592560,48088543,48073616,45255375,44014969,42884827,41546585,39512867,37362595,35599514,34281288,31477083,28962376,27901855,25814976,23812065,20605509,17607225,16161402,14898501},
{-30149969,-29761923,-27835028,-21701965,-16601151,-14776204,-13302292,-13098934,-10042050,-4068217,-3054544,-4455442,-311631,5199906,8023454,11356244,14933849,21001408,17432240,13727752,15584638,12549819,12118307,13074662,15086110,16800623,17667177,17056618,16730631,16431292,16678631,17541933,19039984,21498026,23880402,25809572,27470901,26438896,25831535,24721539,25452930,24497135,23135393,22835299,22075197,21684967,22175278,21981127,20876558,20136557,19922407,20156622,20443003,20411209,20230391,20342682,20792530,21806660,22610531,22768660,23534124,23813694,24123121,25171844,26862595,25715759,26265028,24985115,22606655,22494854,19564573,17665470,16362473,15265732,14491048,13760246,13005214,12487814,11729177,10822718,9928405,9388607,8833163,8827374,8938973,9399855,10730207,12987902,15375386,16340670,16420263,16197142,15349955,15792996,19397266,21260235,19470770,23588047,25834877,23832611,23092554,21462357,20027807,19707699,20105469,20639299,21529324,22812586,23919558,25661354,27419352,29976982,32336033,34394794,35634407,35237408,32529385,29342705,28364187,27635057,27085457,27687923,29832790,32223095,34607517,38184437,44074665,42581905,43412605,44480114,45360836,45682034,46594841,48866844,50223621,50519962,49651428,48308800,47373638,46717918,46854286,45575436,43675373,42378262,40920261,40992229,42200859,42277508,42555485,44445137,45028290,46000950,45683918,45404861,42160961,43848503,44029552,43717819,45516037,45387356,45609688,45679874,46821873,46983761,45257332,43919888,43207272,41786922,40012726,37770035,35720284,33837570,31283960,28661095,27832226,25644592,23940454,20619522,17608519,16159233,14898501},
{-30149969,-29747625,-27704132,-21514061,-16573536,-14880659,-13286793,-12866214,-9795874,-3952740,-2779301,-3887893,220807,5802664,8365648,11514629,15024061,21286417,17296770,13132541,15895949,13456903,12627349,13743713,15203609,16659103,17667242,17497309,17766932,17215473,17040361,17672653,19131796,20574041,22671780,26157486,28246599,26459682,25716362,25305792,24103779,24638889,23808414,23598946,23465485,22766304,22966557,22886272,21826880,20780087,20295034,20599758,21182041,21480658,21124973,20805002,21211466,22090067,22747606,23022615,23655827,24309111,24643185,24832151,28224228,28305603,27245893,26086540,24394726,22468874,21053234,18658680,17172987,15809147,14676601,13905121,13374394,12935231,12271712,11351259,10311067,9455329,8576566,7996560,8034104,8627026,9573742,11542873,14076283,15723413,16710957,15574517,15271996,17743660,21225294,19086500,18395344,22645977,24533361,22776182,23310114,22541172,21263025,19691143,19101387,20231529,20919998,22348551,23379324,24587971,26254414,28657557,31585880,35856655,36906418,35998177,34013206,29981298,28289843,27716024,26824146,26890850,28329624,30056910,30955175,36704384,43727119,43692772,42518963,44264084,44966125,45068069,45433945,48209694,50984798,53230694,50073654,50028042,48178505,47481419,48133919,45495781,43792042,41911636,40077450,40942116,41900967,41686943,41875122,44091125,44790005,47017509,45947842,45079750,43070171,42925159,43327618,42745991,44102604,44622890,44983253,44918823,45833416,46530769,45505569,44226940,43129230,42068676,39862652,37778965,35864571,33251083,31198046,28390179,27844711,25429922,23981703,20623592,17615856,16157127,14898501},
{-30149969,-29731974,-27568960,-21325397,-16548740,-15001308,-13302529,-12642747,-9582808,-3904599,-2519152,-3253266,776702,6221040,8549500,11735998,15075574,21184076,17258081,12713380,16168579,13730081,13218351,14368989,15511921,16479500,17737484,17995201,18729406,18099142,17661913,17983847,19073774,20186157,22102741,25666983,26358580,26736702,25799229,25465843,24788380,24373886,23930202,24760319,24013727,23619333,23958998,23701599,22977314,21866247,20975712,21342945,21867508,22516327,22038624,21432009,21794800,22827374,23405781,23861452,24319765,24524672,24791065,25021666,24604919,25611324,25263689,24905409,24510860,22745455,20883343,19267818,17560520,15983651,14785713,14436595,14102155,13571005,13052737,11982416,10757402,9566143,8485142,7649811,7340520,7735579,8593251,10075129,12599757,14567745,15854197,15980281,15760805,17302320,19607439,18887589,20550398,22268553,23719660,23211720,24135080,22891623,21539293,20272427,19407082,19793200,21069607,21988876,23146540,24176014,25125401,26952887,29732437,33222061,36585842,35770042,33195850,29372393,27269531,27098303,26370161,26563524,28040464,29162462,29563862,38142906,43861713,43871185,42101173,43626629,44315746,44971870,45351040,45758427,52060646,54201199,53215752,49773720,50060177,48398865,48519321,46748466,44171322,41462368,39909000,40629799,41340027,40847378,41562252,45531498,46393581,46549786,46447441,45137363,43069092,41168804,42896351,42211155,42658581,43815647,44329666,44388752,44812111,46230541,45770844,44043427,42131786,41133598,39062096,37720654,36055439,32672482,31366079,28247795,27816345,25231014,23996929,20624056,17627832,16154421,14898501},
{-30149969,-29714895,-27428436,-21140486,-16526686,-15137083,-13336473,-12438210,-9414610,-3861554,-2255445,-2543197,1344604,6459186,8570646,11937956,15106299,20962492,17413864,12607055,16381487,14031138,13815049,14617932,15743125,16699650,17844460,18361496,19501047,18926025,18260155,18456366,19725273,19608055,21711004,25628178,26618683,26924019,26030033,25582296,24033819,26452801,25142517,26271770,24095814,24677258,24427864,24820484,24125059,23369898,22239929,22185825,22624578,23420683,23005543,22178831,22534492,23002777,23880909,24516571,25015112,24783144,24947948,25474848,24810375,23862652,23075922,23918137,23944769,23600071,20899115,19298046,17579302,16136465,14937518,14741870,14655905,14280786,13928841,12832717,11300701,9909076,8478415,7498781,7283228,7529376,7775423,7678165,11657228,14484145,13580285,14131371,14491324,16248049,18474100,20052372,21150564,22073698,21900988,22384905,23911957,22685562,22120438,21260269,20382710,19931454,21576155,22807549,24374847,25195795,25315149,26692368,29694647,32871971,34305817,35574619,33027714,29198542,28566055,26942001,26255146,27018251,28997370,29742609,29994492,38734787,43165966,43490219,41809574,45211739,45818459,45783253,45643551,45830227,49588852,45920578,53863834,49224880,50100224,48115955,48537876,48309921,44493786,41322540,39569305,41109001,41179569,40328465,40603054,43874996,45165291,46400352,46882740,44069103,42008583,40369762,41802315,42761894,40949459,42760120,43618641,43886486,43940704,45328327,45095844,42550385,42237293,40612873,38599648,37585953,36049072,32443699,31103668,28100683,27513338,24965908,23998789,20619001,17642736,16150497,14898501},
{-30149969,-29696362,-27283037,-20955196,-16503340,-15279893,-13420421,-12266308,-9226558,-3792102,-1975542,-1770646,1921817,6537255,8420238,12068022,15135326,20802429,17581341,12821503,16583199,14333119,13963294,14829431,16071693,16822176,18031229,19231909,20134804,19757261,19327879,18782677,19415110,20042358,22152950,24443756,26213106,27139215,26474556,25756489,25095261,23599447,25346558,25075037,25136759,25879095,25525061,25122252,25125921,24768553,23802216,23072828,22920179,23495434,23666315,23139109,23391806,23667921,24350983,25290977,25719341,25410713,25415913,25474110,24938644,24079447,23118532,22156086,22592079,22686138,22633327,19176096,17594717,16767075,15280770,15112325,15124299,15157888,14817883,13552283,11958881,10314010,8565261,7486153,7425979,7324947,4644436,7543296,10621880,12121783,12141087,13464761,13516343,15191169,20072601,20848024,21363308,21337206,20953646,22598574,24380093,22636347,21784233,21267662,20735666,20724615,22063591,24247555,26997950,28521347,27520142,28190784,29752022,31435047,34179089,34636978,32100353,29119991,28318773,28138430,26769957,27747252,30283125,31180233,31768097,37450356,42178375,43189507,42873238,45941612,48317207,48139359,50194584,46795353,45717995,41397720,49101807,49206249,48669621,48639900,48085476,47889820,44976501,40944920,39691269,40709232,40457687,39487602,38790138,41624092,42396122,43830582,45373627,43265480,41197620,40093349,40469048,42637314,40707279,41611012,42893314,43110798,43110004,44441441,43356430,42151211,41636463,40389965,38793865,37609112,35697701,32329536,30849539,27837948,27247643,24786366,23971394,20610456,17661798,16144941,14898501},
{-30149969,-29676380,-27134733,-20768929,-16479027,-15417289,-13524205,-12141947,-9037464,-3664633,-1661521,-997100,2478924,6495611,8192107,12107900,15182506,20810520,18182901,13180877,16822443,14943296,14711764,15603288,16701529,17361755,18462011,20112928,20653484,20834663,20080153,19234707,19340582,20342430,22448202,24234072,26658106,26676849,27127426,26727198,25841112,25643635,25989187,26062757,25534609,26170578,26521965,26921705,25881590,25840992,24955914,24014704,23521349,23907545,24170450,23975466,24018892,24420853,25007925,25828598,25988338,25903624,25687185,25439833,24745720,24047581,23173010,22609503,22430803,22488274,22804144,19297113,18403721,17732456,16334267,16304211,15583144,15966858,15851110,14514979,13054587,11045164,9074327,8176631,8141670,5698508,5468817,7228516,6801984,9558447,9399793,11501495,13128621,14625040,16042377,19971863,22314060,20491854,19993622,20016897,21506340,21202095,20716625,19823435,20459717,20357611,21638664,23860260,25366619,25942604,26790829,27313766,28039438,29664673,32429928,31086941,30898840,29358637,28996071,29293104,28135197,29382240,32140514,33133362,33658978,36957649,40056198,42510044,43476486,44028034,45193787,46652122,46829243,48103615,45960945,39375401,50375420,50246887,47037159,48222969,47992641,47024899,44276440,41034130,39771908,40254219,39671818,38377632,38274933,40286880,40804333,40731503,42319607,41960876,40914459,39962925,39381359,40873161,41182030,40319500,41895626,42476669,42357197,43489395,43124397,41435749,40425030,39648949,38801319,36985031,35221283,32081314,30350033,27359007,26941996,24710094,23890144,20597744,17689392,16137625,14898501},
{-30149969,-29654963,-26985106,-20587664,-16450081,-15544418,-13635715,-12044640,-8807845,-3446755,-1317907,-224196,2991750,6379949,7968762,12099290,15268879,20965656,18834806,13599410,17186647,16055321,15726357,16120680,17568132,18036465,18766058,20580870,21758219,21781498,20964476,19911745,19667980,20270334,22482996,24393124,27585064,28414850,28800800,27180059,27247929,26244217,25918758,25938650,26168110,26444593,27295471,27729784,26526516,26852127,25748249,25120771,24297062,24548996,24932648,24851517,24677431,24894217,25450123,25710348,26006538,26208479,25714754,25450083,24912966,24004702,23610468,23211231,23268265,23286274,23622597,22352745,20231451,21052198,19728302,17946184,17343081,16780357,16643158,15164836,14684601,11509058,10347088,10807984,8988914,5448086,5324901,4936166,6366653,8697366,9988360,11508190,12660840,13548248,14816172,18102278,19654865,20580467,18817814,18461702,18823643,19175007,18932785,18991121,19221588,19548117,20000635,21761538,22788836,24311098,25216358,25306520,27441378,28913200,29284664,29035816,29373356,29624218,29709232,29623096,29606739,31421700,32547024,33117863,33888351,36509693,39471493,42447624,43455711,43170235,44158810,45982025,47584980,48500801,44990875,41084976,49954655,52048042,46544571,47097912,46807785,46150059,43825912,40842609,39575207,39142765,37975956,37940411,36669186,37740170,38786613,38496353,39186630,40094574,39038860,39292904,38441761,39524418,41003132,39380112,40932709,41696934,41749863,42687572,42281796,40443253,39477242,38942261,37898712,35992592,35106178,31724674,29649275,26651358,26652327,24805206,23787107,20573008,17728897,16128710,14898501},
{-30149969,-29632126,-26834301,-20409714,-16409714,-15649918,-13763903,-11964878,-8519981,-3119930,-938624,492318,3444644,6241394,7865438,12095096,15406032,21201313,19074879,13928199,17567921,16226076,15854380,15898977,18571737,18536314,19294277,21313307,22817575,22835211,22097473,20778593,20307383,20920465,22713242,24814129,27923460,28836853,30175238,27090141,26262918,26450138,26201317,26181627,26744057,26837574,27439260,27832155,27147890,27274891,26854988,25905262,25335316,25006615,25399876,25473166,25489449,25610706,26642067,26738466,26663031,27007423,26810772,26623289,26037531,25631798,25466040,24606373,24533323,24768837,25412447,24675102,22389662,21857693,21784918,20524023,18898424,18490782,17265434,16858143,15540389,12888221,11161330,12906193,10512954,4520281,3088712,4384712,8262036,9160081,9108613,10123178,9803752,11641055,14001819,15714956,17612726,19265465,17753775,17881102,17464615,18138136,17591454,17769903,17589029,17516136,17932981,20222609,21544525,22252172,23063848,24080482,25514156,26189734,27123264,28737198,29000256,29471664,30009567,30187305,30729557,31908573,32119926,32932823,33613510,36550030,39598026,41953594,43704075,43016609,44082397,45969135,48462643,48179974,42188103,42658077,48518082,51332523,45341248,46109917,47237209,45581486,43096596,40693356,38954784,37825672,36832893,37393806,35633671,35253746,35955917,36002781,37426720,37366405,36060280,37749420,37116997,37823212,40244778,38738960,40163635,40961430,41273773,42123211,41375900,39899044,39261322,38280231,36868404,35676254,34826431,31607962,29042334,26060471,26422630,24975163,23714140,20544985,17778473,16118578,14898501},
{-30149969,-29607878,-26681952,-20232222,-16364325,-15729426,-13885003,-11879294,-8163435,-2692294,-551424,1133264,3795606,6123846,7961357,12193486,15599269,21402403,19379583,14127166,17828213,15729742,14932462,16333735,19102026,19022284,19819046,21700008,23448723,23638155,22806707,21583874,20704533,21537811,23335890,25719393,27812363,30615177,31470261,29912193,26907766,27570272,27078812,26590012,27247620,27508150,27619989,28227625,28857319,26992912,26702656,26126106,25791582,25634109,25577917,25836113,25962992,26749437,27206516,27940962,28190998,28867819,28773094,28507221,28107096,27690018,27974010,27962378,26699900,26266531,25039722,24929628,25328959,23356569,22415361,21451828,21275427,22163897,19247408,18173563,17529619,15594683,12837854,9996240,6610806,3938284,3233235,5133639,7441841,7389173,7286367,7008635,7038098,8577858,12489464,14278061,14846881,17091715,16072517,15821315,16338104,16311131,15912722,15531237,15387105,15641315,16932419,18716831,20005436,20779718,21435196,22681366,23660496,24636103,25704897,26835184,27115156,28648796,30489906,31212240,31501745,31496264,33342922,32674965,33193123,36055676,38354336,40877522,43892677,42654686,44279854,47436951,49524174,47423786,40474747,42746902,45052536,50313992,45017818,46767181,46882027,44518261,41783566,39482548,37404873,36351017,36723736,36452595,34291813,32951931,32737194,33766033,35668461,35405933,34177383,35970844,35095474,35220879,40045338,38661274,39597942,40471119,41157539,41771748,40356464,39537437,39357105,37446442,35001045,35802368,34281364,31611937,28609127,25929272,26148405,25248747,23669949,20535320,17831108,16107702,14898501},
{-30149969,-29582247,-26528423,-20059837,-16304070,-15768536,-13992061,-11796288,-7761350,-2167881,-169459,1664176,4055157,6062898,8264116,12418755,15857538,21517927,19263807,14194304,18053677,15941396,15152728,16548136,18629957,19584379,20115826,22028301,23531380,23804829,23238626,22201805,21744514,22183174,24297619,26167618,28422274,31088247,31842186,30821959,28323437,28429468,28512953,27504105,27177530,28257738,28475033,27605829,28912355,29322151,26519859,28501076,26400961,26292835,25595541,25661150,26147963,26900623,27995085,28865185,29609699,30100746,30308661,31524624,30566999,30054224,29307957,30011833,28066954,25940269,26085661,25893997,25777443,23919533,23432446,24191187,21563833,21107883,20779095,18366083,16978790,14210795,10537041,6843832,4070140,3179110,2928903,4525377,4851767,4308374,3805390,3634849,4328645,6459030,10480944,12616568,12738571,15449340,14571095,13670366,14169572,14571996,14396388,13874964,13519841,14539437,15535874,17553982,19002132,19467333,20673658,21396160,23171108,24602791,24114418,25036844,26504669,28060577,30483185,31222178,31057261,30323149,31929684,31591337,32481316,34501968,37102943,39347492,43308575,42878830,45113457,47416824,49036072,42724796,41682861,44297325,46951412,50084007,45575012,46919518,45670006,43391685,40795250,37547504,36003883,34749180,35144455,33960556,32706738,30870649,30943384,32266136,33916470,33245293,32384102,34351700,34196777,32747040,35549992,38163849,39067764,39761436,40894833,41168919,39408527,39558464,39847343,37137463,33458885,35445278,33595596,31483189,28058996,25585257,25858709,25250601,23663441,20544296,17878319,16096529,14898501},
{-30149969,-29555305,-26374554,-19891685,-16227736,-15766829,-14072813,-11687707,-7266949,-1589041,186394,2071268,4213754,6045271,8747017,12780817,16148338,21493998,18774450,14267378,18250261,16445015,15729300,16222235,18032915,19752718,20474146,22226171,24519104,24005211,23654654,22821890,23119669,23561775,25131395,27305023,28984934,31272463,33403633,31274933,29624805,28789625,29099083,28328060,28582890,28345177,28062164,28749350,28898943,28787573,27328505,27021214,27883945,26302197,25945587,25607622,26121000,27450108,28916876,29094599,31822048,31594246,31900261,32014561,32550774,31745365,30718451,29819239,29450436,27592340,26388506,24920376,24170471,22392088,21372292,22402225,22546885,22835411,22596739,20030989,17343437,14300836,10659580,7702068,5436263,2962649,1529450,1724601,1500775,59163,-1272268,-302785,637461,4065896,8761240,9872335,10762412,12359310,12294360,11644156,12451805,12594228,12893916,13085526,13725954,13576667,14288287,15508954,17631124,19068064,20711338,22192997,24219393,26157433,25108315,25108124,26242804,27973799,29712749,31011368,29679176,29507362,30364836,30127319,32032299,34141190,37881435,42324753,43954723,42885933,46015427,48207409,45921135,42410549,42743107,45373550,46933002,48662254,46501019,46101074,44446056,42544304,39628952,35851940,35096962,34617275,33685459,32465218,31180111,29518507,29568419,30843224,32605724,31741653,31102335,32500957,33371346,31235270,31698759,37416695,38344101,38916744,40162121,39361950,38497677,39727108,39476833,34946369,32663761,34907219,32740715,31266350,27377235,25447878,25635450,25084589,23665806,20557053,17913778,16085421,14898501},
{-30149969,-29527193,-26220570,-19723860,-16135899,-15705582,-14101726,-11532504,-6715852,-978640,510626,2374126,4322560,6074127,9327967,13224764,16429346,21284334,18056015,14374329,18324602,16383139,15198493,15998484,17378586,18966267,20790319,22290047,23684221,24176805,24361628,23721630,23396751,24859741,26345253,27971603,29808710,32398304,33522316,31856293,30689816,29326174,29403008,29131546,29236032,29558197,29330544,29165359,29069616,28862410,27698523,27519533,26880896,26554331,26693544,26445580,26834578,28040863,30653244,31343952,31047894,31418079,32921089,33637772,34082798,33606823,32600327,31661636,30303802,29361668,26726027,23284630,21603634,20724594,19333584,20019367,21454201,22557308,22138050,19860075,16994686,13591796,10956015,8384620,4844666,1490326,-1329420,-2563415,-2966439,-4035529,-3587124,-2875331,-1043122,1210881,5333642,6553905,8453390,8617422,8840919,8711823,9961709,10941943,12061990,12038723,12398734,12775102,13124591,13899005,15990959,18406424,21900997,24366880,26896219,28111065,27758516,27185495,27102661,27907387,29533312,29861883,29371021,28604197,28933292,28944611,30555470,33353539,31224693,31401217,39112820,43791119,45693928,47719456,46983727,42907917,43742161,46089104,46186901,46452106,46340420,45944599,44069283,42116032,38730122,34332653,33807232,33473465,32391613,30613508,29429144,27818638,27471054,29409206,30010241,30804272,30342115,30631899,32396599,30543856,30277023,35386051,37114872,37404812,38082550,37473804,37744221,39325874,37263977,33286854,32467728,34217503,31980625,30820440,26742037,25459133,25391064,24908949,23642155,20568039,17935028,16074640,14898501},
{-30149969,-29498108,-26066114,-19561605,-16024080,-15587166,-14070270,-11309932,-6115509,-363115,793517,2585313,4376026,6153138,9907615,13677688,16690767,20907909,17238047,14484982,18215351,16178267,14430057,15895705,16879593,18329287,20736347,22345736,23786274,24407385,24958427,24125164,24034975,25369736,27364876,28862947,31191584,33686283,34042690,32491817,31347515,30396542,29923750,30419271,30446873,30077866,29597939,29519646,29428196,28873749,28757038,27273149,27468138,27217243,27513092,28187098,28537924,31363113,30363400,30965296,31677843,32501530,32024418,33711586,33870152,33150352,32389107,32406475,30646238,28431017,26474443,22485197,20510254,19628618,18285534,18168657,19659819,20685596,19963995,15080582,11967113,9124774,6601616,4720519,2394986,-1438994,-4466972,-6705819,-6525131,-7540617,-8823974,-7748021,-4477750,-1282772,3180656,4896663,5589266,6192846,5919757,5575967,7804665,9419439,10525299,10674890,11119231,11683865,12357942,12890024,15388612,18383808,22436930,28747536,27975250,27960024,28693983,28586624,29064667,29581888,29672680,29167120,28991648,28644714,27399014,27767845,29011625,29719517,28787273,29118462,31442247,37275932,38002182,45534290,43500557,43078102,46275612,46319263,45245506,45265446,44162872,43323608,43992573,40803764,36965649,33346355,31925665,32043018,30423359,28341331,27438662,25996078,25446768,26091974,26798944,28582500,29840937,29689007,31467295,31275957,31101494,33189159,35400345,35256775,35620541,35447495,36524654,37097065,34251690,31894524,32235447,34361099,31004534,30627159,26294205,25173326,25117569,24789156,23569344,20570509,17943968,16064415,14898501},
{-30149969,-29468288,-25911425,-19406477,-15898363,-15401138,-13964181,-11021616,-5480501,212602,1043362,2735937,4452277,6271830,10425616,14086580,16932911,20579933,16498535,14564825,17950922,15529329,14422292,16175520,17039751,18814280,20320086,22510429,23941662,24743673,25236359,24662697,25153172,26783003,28049726,30106783,31886843,34360676,35135006,32971237,31992559,31146839,30685555,30959133,31420008,31209570,30445152,29873056,29630367,29281151,29077515,27282703,27371367,27508368,28871534,29701605,31387495,31240612,32254753,32075657,33576790,32403496,32037876,31166891,29888325,29721439,29607630,29919903,28822186,28633680,24916323,22100040,20005253,18693996,17338255,16583935,16976500,16942863,15200438,11689045,9377066,6741567,4429028,3142329,240897,-4681619,-7915873,-10253698,-10711826,-13441296,-11492929,-10707928,-7896894,-4897547,-2852699,-667974,1768025,2966782,4133330,3943712,5905689,7543940,8449415,9966820,10141417,10587107,10969475,11114724,13519124,16829840,22894089,28410185,27835476,26809059,27275448,27012758,27458519,29023819,28425953,28897692,28427900,28356661,27029675,27419048,27886120,28522852,28589281,28250624,29339020,29415236,38911499,39779266,38764034,42823616,46636597,45844730,44649422,44926514,43413712,43184166,42554932,39301914,34925480,31188721,30248634,30023119,27972832,26367002,25548815,23864693,23213865,23383940,23658140,25367231,28462965,28571840,30242722,30860548,32285099,32210476,33490192,33268200,34552818,33188347,34534477,34584641,32410858,30673470,31286797,33266800,30193913,30366627,25886255,24856440,24808748,24581820,23375105,20554501,17946012,16055006,14898501},
{-30149969,-29437948,-25757790,-19253162,-15747922,-15156615,-13762542,-10641944,-4814139,754493,1260897,2858858,4568851,6444333,10797751,14409368,17216175,20409296,15959366,14635833,17657860,15601110,14915919,16097696,17477535,19020277,19738401,21878756,24184912,24953791,25517714,25529060,26062618,27016825,29475794,30887716,32445328,35200485,34998947,33869583,32566772,32307468,31914194,31367474,32031841,32037697,31429222,30455008,29869822,29514187,29299368,28851461,27137699,27585339,29526936,31157976,32270607,32524921,32753807,32517162,34299335,31750536,31776741,32204559,28456234,27886414,27323242,26719519,26881491,27502087,23389620,21037550,19189001,17150150,15578449,14574395,14521972,14175044,12352020,9804790,7503624,5607035,3384545,664512,-2871637,-7236607,-10203724,-13021898,-14307499,-14600466,-14944440,-13259924,-11619892,-8346922,-6638215,-4863275,-2424114,-104218,2224994,1243988,3932164,6025036,7841577,8314709,9373734,10331431,10836272,10522575,12383244,15730587,19436754,24026157,26404600,25843304,26498896,25405346,25862526,26104652,26307959,26363096,27055937,27106529,27185617,27292513,26341152,26487932,26568005,27213030,25017845,29092596,33752525,35375874,37206459,44917671,47123848,44897205,44297977,43511131,43852036,43221512,41548481,37967384,33027515,29890820,29315290,27935970,26246592,24859821,22603262,21593950,20197533,21786158,22630032,22088955,26097015,27114910,29136196,30445892,32076538,31374050,31722433,31273470,32227207,31558613,32991482,32786297,31256508,29862301,30021660,31258175,29713371,29743372,25492914,24790751,24518604,24284750,23092426,20527006,17946880,16046728,14898501},
{-30149969,-29407230,-25606468,-19105995,-15584667,-14832658,-13465613,-10180971,-4132062,1213752,1461153,2981343,4734560,6673466,11059611,14666490,17578100,20586401,15747399,14669299,17662563,15860031,15065046,16083351,17786156,18911303,20250256,21904400,24216148,25199493,25458229,25974363,26401581,28147696,29466043,31451857,33332603,35295563,35269108,33994339,33234394,32709503,32238789,31697226,32138828,32544281,31883154,31109243,30423456,29759579,29408066,29202309,27667591,29379053,31516645,31871395,32775063,33449734,35081738,34800312,33316429,31206099,30146294,29871906,29106838,27662025,26239090,25105742,25031855,24135139,21565733,19550543,17552948,15280519,13385962,12475962,12450457,12079694,10050638,7546515,5381526,3158908,421510,-2819702,-5925791,-9127412,-12579107,-15217763,-17300434,-17887737,-16683582,-15392952,-15052910,-11303687,-8662198,-7387657,-5183403,-1607107,92441,-286373,2069703,4490182,5542529,6899748,8275423,10301057,11692378,11607140,12280976,13157026,14222138,16600920,20305597,22769438,23604567,22997059,23843809,24522352,24730022,25038311,26106100,27164585,29243097,28306479,25312466,22991291,20448940,22801899,22922060,26313063,33955002,36520683,41371086,46165176,46104214,44246822,43625385,42554722,42728058,42954578,39719498,36603905,32489788,30724796,29311647,26790283,25352663,23116550,21491983,19829935,18927233,20499647,21079590,19559658,23767862,25257904,27388439,29565363,30500525,31184982,29625435,29629547,31080828,30519388,31237459,31191614,30445745,29213018,29386272,29812153,29138988,29159941,25224239,24512785,24228668,24073069,22806953,20502329,17948555,16039934,14898501},
{-30149969,-29376167,-25457630,-18969625,-15415137,-14457885,-13085537,-9627002,-3456680,1615997,1666526,3131954,4953994,6968723,11235975,14913175,18081263,21160469,15947048,14762285,17826460,16350065,15155645,15870578,17798267,19102695,20364233,22344482,23613226,25280085,25689615,26021969,26926342,28054918,30272488,32204723,34572983,35629875,35538372,34513355,33962368,32972260,32536720,32233818,32587105,32669338,32165688,31679462,30818802,30238039,29390663,29025763,29111063,28719904,31582520,31239267,32958576,34047726,36453827,34642879,32564907,30628729,30679144,29359732,28296595,26961336,25774363,23230354,21514933,20802773,18695744,16670691,14197493,12421821,11064523,10062343,9536025,8877063,7296413,5215945,3276636,1022399,-2359311,-5508607,-7469450,-11127416,-14284790,-15168444,-19225290,-19499575,-18197899,-17163290,-16042633,-13538928,-9781760,-7297424,-5933181,-2523253,-416869,-1177835,-76453,3261322,5139114,6405900,8323792,9279739,10941503,11702319,11568570,12197170,12525593,14432434,16975601,18868570,20134171,20682898,21616028,22987452,23227707,23815998,24395945,26403812,30130598,28106251,22905203,17398598,14337147,21198616,24742662,27809252,36885609,42532532,44901501,46299019,45193398,43917179,43052139,41831837,40881210,40638786,37051804,35916656,31939253,30476191,28746489,26023378,24579908,22691544,20790276,18693045,19113287,19868021,19549324,18425131,21045948,22748112,25432257,28070135,29140062,30203188,28542595,28702650,29423460,29583397,29448074,29986935,29643347,28915091,29235312,28645163,28856213,28591206,25014875,24293413,23936405,23914917,22593292,20485407,17948881,16034895,14898501},
{-30149969,-29344696,-25310923,-18837572,-15231734,-14029292,-12602331,-8992290,-2790550,1948052,1881725,3307796,5230964,7344287,11402802,15227098,18719995,22037249,16583580,14971741,18024691,16529608,15090318,15616598,17899467,19268064,20738466,22427084,24071732,24979000,26035856,26544367,27602329,29032347,30584829,32600697,35441250,36020588,36673828,34657558,34334324,33286064,32301052,32529545,32976727,33248203,32611813,32779160,31719923,30440664,29654596,29286972,28504858,29131420,30516043,30546003,32245865,32015892,35953178,35387779,32821739,31905582,31161917,28471647,26595409,25595510,24246832,21877583,19619799,18043573,16653038,14045321,12557910,10952404,9375570,8016014,6108129,5775973,5079511,3524989,1695162,-483694,-4133016,-7816552,-10111956,-13359464,-15298611,-18657034,-20428532,-20498526,-18715853,-18117796,-17308607,-13871840,-9783903,-7017438,-5422907,-2664097,-1511892,-1240786,-1075399,2419821,4652560,7035549,9515877,10756258,11587694,12394401,11365237,11876314,12540880,13845450,14756152,15826880,16967232,18264156,20504436,21430956,21805182,22523943,23200024,24392782,27596533,28910427,18712610,11397528,11523849,25201248,29962095,33214687,39415951,43914272,45407696,45393723,44911045,44685284,43569393,41665268,39559261,38336826,34952843,33773636,30068117,29098457,28253319,25507172,24405416,22428463,20658108,19611372,19701574,18896868,19119448,17951468,19069155,20588726,23319168,26289610,28231403,28699812,27848446,27786619,27342659,27982267,27999201,29032108,28794268,28529100,28848196,27785065,28378063,28128490,24754128,24129745,23647013,23768179,22402102,20487368,17946379,16031681,14898501},
{-30149969,-29312698,-25166874,-18710066,-15050004,-13556010,-12030110,-8281710,-2146363,2229288,2134305,3523626,5540350,7792097,11622706,15660592,19447659,22962126,17409887,15289596,18337866,16773157,15272465,15460395,17728033,19483459,21000902,22567690,24385441,25115252,26648203,26940968,27293999,28932381,31626240,33127472,35653450,37537952,36718201,35770191,34601944,33772999,32721081,32524742,33006954,33383755,33103573,33302265,32624195,31336536,30226166,29333702,28043774,28968313,27713879,29491568,30937059,31428225,34549953,34613514,32990013,32373840,32633739,28595873,26884947,24408081,23139267,21188198,19569698,17741135,15622283,13275623,11467254,10087076,7983781,6387315,5408208,3799596,2708308,1102542,-1379473,-2778823,-5938694,-10370773,-13086919,-15118280,-17394506,-20006428,-20932299,-21121752,-19997646,-18207203,-15803143,-12701560,-10303790,-8098323,-6056213,-3916247,-2286797,-725442,-270565,1569602,4245203,7019483,9074720,10479999,11924166,12804080,11353916,11780277,13013098,13224603,13583800,14049059,14779076,16530567,18626133,20110214,21463383,22950293,22579653,22808500,24944294,23592440,13432830,9350148,19049341,31709284,35809650,38085842,39378448,43204010,45239361,45163010,42233475,40907871,43290646,41476540,38712593,36464211,32543037,30781937,28850307,28088940,27677963,25276920,24117382,21894310,19998274,20230965,19711784,19186502,18727684,18081673,18042074,18887978,21496807,24334541,27286459,27768703,26424109,26983767,25698437,25895844,26524311,28095440,27917870,27848669,28002069,27168362,27980370,27891605,24627871,23863253,23398272,23664160,22141428,20528944,17945192,16030043,14898501},
{-30149969,-29280085,-25026955,-18594370,-14866196,-13064835,-11408110,-7522153,-1531059,2460995,2416556,3760976,5867924,8317261,11951949,16222952,20128122,23645325,18210690,15525609,18439169,16939596,15634780,15660058,17713049,19683418,21247156,22615154,24196789,26180977,25936831,27816061,28161390,29526726,31016556,33384308,36428040,38378635,36970631,35740761,35330460,34112671,33343235,32590076,32909039,33361698,33448193,33498077,34259834,32958687,31976652,30169327,28850065,27819502,27109724,28663506,30165733,29479103,34861816,34759872,32687492,30834446,31112818,28572708,25805876,24480095,22417067,19718300,18152880,16552952,13923576,12088956,10321388,9280591,7471239,5123784,3862621,2533387,1316710,-986764,-3878560,-5128049,-7102011,-10839006,-14394792,-15760477,-18227175,-19922716,-20936546,-21168453,-20860184,-19380674,-16166599,-12451100,-10484485,-8578254,-6613981,-4918847,-3642809,-1749388,-652069,1062382,3730183,7605710,8768280,9706644,10802585,11761668,12077370,12025267,13123679,13532028,14010284,14428760,14578892,15221658,16615181,18112782,19890982,21318487,22427721,21801468,21649233,14559915,9021974,17114899,27436739,35510124,39104351,39703011,40630402,42123196,44486343,43193184,40840897,38108139,41471470,39543453,37972828,32284996,30664515,29166969,27771959,27964859,26951921,24897259,23070257,20980400,19688690,20011995,19118898,19247417,18512512,18196913,17520391,18234825,20380886,22833807,25149330,26802488,25521677,25607006,24503376,24276518,25108767,27130043,27042902,27035713,26805664,26204397,27423126,27530224,24542698,23534254,23161833,23556648,21972189,20617426,17953424,16029387,14898501},
{-30149969,-29246870,-24892101,-18486935,-14684404,-12565039,-10724868,-6724001,-957785,2671424,2741391,4005951,6190517,8892356,12372589,16857630,20632368,23748566,18613472,15718528,19166103,17312691,16032261,16089823,17963858,19789093,21418325,22625624,24250463,25946199,27356094,27372702,28278938,29493889,31140902,33834564,35847889,38185982,37396034,36578835,35372566,34084881,33554100,33077354,33018555,33276470,33715080,33814339,35102104,35041454,34308506,32593761,30636272,29396013,27351395,26253691,28216694,28338091,34764927,34675632,32537498,31163021,29829187,28963499,26434170,24065115,20714539,18526455,16584995,14826883,12463872,11417259,9800576,7937986,7135786,4537931,2654690,1325851,-62039,-395041,-4631568,-6935389,-7347997,-10619746,-14094097,-16384743,-18685675,-20155033,-20282200,-19414703,-19194593,-18401110,-15429186,-12436848,-10921721,-9887663,-8522693,-7193906,-3951846,-2738593,-1321030,147813,2780431,5536344,7681366,9082714,9739293,10733253,11494323,11682377,13333399,14909754,16228214,16518166,16250256,15541592,15359202,15441641,16658539,19490393,21036846,21320835,18541862,9679379,8840750,20570889,30463436,37740936,38979843,39512398,40319546,41248104,42398056,42076714,39373711,36520794,39760361,39546799,35607655,32070213,31653088,29386740,27519514,26854609,26429001,24473778,22336927,21244301,19714491,19370968,17726282,18361874,18687551,18484213,17842020,17655455,19553902,21796906,23909943,25773451,24508343,24502285,23400341,23106251,24014257,25816750,26168623,26199776,25407640,25280067,26818390,27274004,24467539,23252789,22945776,23320597,21885944,20743628,17975380,16028868,14898501},
{-30149969,-29213213,-24761845,-18384094,-14510641,-12055255,-10031027,-5938357,-423827,2873473,3094247,4267062,6514555,9488091,12854572,17464809,20865788,23252455,18482752,15734074,19672768,17333570,16184452,16651218,18263941,19908745,21669506,23084494,24526564,26218660,27724682,28120493,28931871,29447338,31625519,32700165,37082600,38508430,37274334,36935802,35953659,34922249,33985329,33291126,33048115,33266026,33689346,34131599,35409828,35819996,35354198,33967850,31643354,29939713,27766027,27608559,27959057,29433367,33839607,35493763,34746216,31174376,30115896,28884703,26377052,22626684,18873556,17706713,15733433,14210341,11152504,9835715,7943166,7599550,4836982,2935020,1022077,236882,-1490568,-2327969,-4977738,-9602641,-11615020,-12044436,-14294113,-16513561,-17903809,-18164339,-18083141,-17500370,-17102209,-16111952,-13938850,-12051130,-11440212,-11450985,-10896861,-7331330,-5015320,-3785235,-2486920,-989586,1270862,3978881,5626457,7645920,9194386,10233255,11242745,12049067,12935204,14940935,16555063,17261990,16690645,15095777,14457703,14477134,14848289,17370321,20577227,20831642,13705983,7708609,5791130,17226408,29403984,36499386,38231098,39490520,40235386,40868259,40849915,40902271,38078201,33688606,37481152,36194000,33839821,33189297,31989695,29796139,27198828,26044960,25264542,23801962,22022909,21802826,20080141,18233765,16537230,16680752,18629591,18350267,17956089,17866886,18810841,20595348,22655748,25084679,25304024,23366398,22244556,21858160,23180162,24430384,25200296,25339151,24412497,24528679,26235132,27006853,24504196,23036676,22741837,22987410,21789797,20887531,18005917,16027580,14898501},
{-30149969,-29179398,-24635412,-18291622,-14341344,-11545174,-9319234,-5177752,35685,3069099,3457054,4524850,6838925,10076249,13334412,17931931,20794512,22380121,17934298,15680832,20066181,17740911,16360033,17137754,18353970,20157694,21886843,23484810,24886602,27077440,28245626,28990088,29130766,29887156,31645636,32793236,34258579,37365257,38283821,37094475,37054283,35257408,34207542,33623360,33423424,33258614,33360088,33709270,35086193,35644127,34850960,33690536,31650274,30119024,27650005,27372894,29612436,29759586,33222584,35585899,33374180,31098049,30526321,28944794,26106228,21349434,16897017,16064409,14628103,13606117,10690845,8115212,4116267,7130877,3222937,1595298,-278626,-2666703,-2858996,-4602761,-7656095,-8220541,-13280936,-15177493,-15312559,-16467535,-16400021,-15929423,-15951825,-14850196,-14527389,-13640498,-12786723,-12009177,-12112355,-12390434,-10319510,-7420259,-6016351,-5453809,-3883004,-2853260,173932,2704793,4173651,6922960,8758050,9982758,10731469,12207253,12793685,13185817,14359010,15565848,15528744,14103129,13341209,14149051,14970790,15640504,17987240,19144234,11430379,6966515,1098518,8854080,24099762,34548615,37883400,39176941,40182213,39399303,40141956,39221230,37051353,31999952,32390991,33429092,33514744,33261524,31759546,29666157,25887085,23896826,24249403,22560658,21491997,20348263,19680300,17537970,15562351,15645261,18682255,18375031,17852930,17482969,18225918,19349844,21459831,23999285,24435520,22319834,21019165,20939962,22430229,23319235,24128092,24264021,23576654,24084379,25619099,26795341,24490812,22865925,22544241,22758917,21753254,21003477,18033329,16024794,14898501},
{-30149969,-29145769,-24513302,-18208849,-14185577,-11076356,-8642523,-4442963,435671,3260001,3818627,4770760,7146346,10622082,13743655,18150953,20422548,21153915,17224617,15652479,20234875,18634129,16773375,17707554,18734461,20510376,22320246,23769987,25418493,27677835,28764196,29445215,30113934,30949823,32055073,33895901,35706444,35794445,36212891,37511757,36971443,36638058,35128468,34208817,33377907,33271481,33392597,34069321,34834229,34871132,34272705,32760937,31232891,29479183,27805622,26713186,27693455,29817574,31383802,35981415,35980892,33998474,32134563,29248224,25384016,21046551,18822849,15240365,12843753,12328249,10416663,6946512,3920577,253872,1805390,-291691,-2645255,-4884768,-5647007,-5937763,-6915554,-8071100,-11399104,-15200678,-15587163,-15237277,-14245333,-12736434,-12459459,-11272474,-11165285,-12050223,-12237284,-11974335,-12388251,-11599338,-9401177,-7917516,-7156620,-6007161,-4550979,-3264537,-8831,2026225,4083699,5847527,7554404,8404693,8931317,10308804,11225528,11910758,13101115,14251425,14730913,13908521,12700752,13207180,13968255,15053214,16615940,16450344,10909004,6791435,1422254,5833111,17690081,30401587,37124401,38792595,38909649,37643684,38163013,35641575,35605633,32749149,31040625,32302345,32335583,32388187,30961018,27536253,23282724,22058874,22626711,21806860,20384052,19387482,18409199,16737570,15097739,15501209,18341257,18291492,17828224,17436914,18094894,18400465,20473999,22435108,22929256,21932663,20200951,20290092,21491631,22266308,23171307,23244040,22621044,23465385,25360800,26461624,24344200,22648945,22283833,22524387,21665445,21031279,18047855,16020159,14898501},
{-30149969,-29112627,-24397017,-18131031,-14049220,-10663691,-7997505,-3803631,759937,3444590,4147608,5005088,7488722,11122063,14033022,18100069,19896057,19937561,16778376,15896624,20286013,19696011,17376926,18224039,19511494,20963387,22698687,24072601,25828514,27848406,29064396,29890926,30831318,31481441,32794430,33755268,36329002,37366238,36878490,35288280,38416306,38138905,36726234,35459816,34110027,33326397,33367409,33727539,33898815,33512539,33369167,32770199,30947304,29571394,27846020,26121119,26084366,28737528,30782976,32243862,35103767,36017502,31575020,29264595,26785824,19728035,18535618,14802825,11064177,10427788,9796890,6258606,2606863,169468,-3242805,-3406775,-4857101,-4895568,-7302145,-9187401,-9434139,-12498997,-12359168,-12090883,-13069925,-12135295,-11025373,-8378068,-6906284,-7831745,-7899129,-10966098,-10744987,-10813190,-11566256,-11152217,-9790092,-8865937,-8179439,-7688131,-5932528,-2523250,-214673,2250790,3564155,4837415,6179830,7393453,8196198,8985824,10361158,10685011,11847879,13280649,14083200,13740174,12360156,13186132,14491259,15614974,16523565,14619744,12208396,8719115,5021313,5480513,11905223,29679401,35439335,39084457,39415257,37339005,33156536,29915506,33058514,31895794,30359964,30736917,31174652,30632946,29245451,25388514,21274855,20829779,20828438,20817381,19704596,18806318,16868057,15850414,15344233,15935384,18190943,17892441,17820570,18113871,18037745,17940048,19549013,21286074,21331717,20649105,19299511,19157715,20360285,21409397,22066408,22182064,21675863,22679991,24812912,25831913,24169960,22448780,22000660,22303507,21498260,20959736,18047333,16013781,14898501},
{-30149969,-29080153,-24287275,-18062620,-13937240,-10289720,-7429899,-3248532,1003747,3623743,4438845,5219959,7848011,11559896,14209373,17831041,19388638,19180721,16992565,16502594,20272881,21254810,17919109,18463774,19958443,21315218,23080124,24614183,26263004,27925901,29141142,30264929,31632603,32376202,33483315,34361622,35502018,37344765,39179180,37932774,37919693,39081356,38837975,37787617,35452679,34427635,33677441,33130371,33181053,33407654,32981483,32194752,31330803,29132004,27527592,26092375,25571423,25097786,27219566,30735201,30945030,29646221,28199461,28332542,25819906,21002710,15746798,14372579,10275850,7642419,7276387,6027451,3312526,1491061,-4830672,-7372107,-6722911,-5924177,-8418420,-9467859,-12084386,-13582999,-12442019,-12799159,-14155547,-14707911,-11223254,-8783807,-8656811,-8797322,-10780965,-12619249,-10130530,-10833293,-11521528,-11074411,-10727671,-9952810,-9539106,-8184371,-5066756,-2015727,-484385,1060803,2527088,3909526,5005270,6227027,7131706,7594768,9226185,9876898,11063171,11538453,12667457,13159447,13252609,13409402,14145418,15129666,16054991,15038465,15788910,11418245,7285982,6272871,14315252,30932362,36260082,38898979,38900497,36617062,30283697,28941778,31894318,30627604,28894182,28770290,29900743,28674097,27450939,24627104,21956209,19660254,19687698,19511648,18801529,17836376,15813810,15252348,15862008,16394390,17475519,17357544,17672272,18170048,17722687,17882660,18589968,20572111,19810825,18881611,18524572,17908575,19466709,20571207,20914080,21176107,20714544,22183352,24264275,25353046,24025631,22283371,21751604,22143938,21350281,20856611,18035852,16006149,14898501},
{-30149969,-29048359,-24183270,-18005136,-13844050,-9987778,-6950767,-2815176,1152987,3773459,4682417,5421685,8204684,11924647,14281768,17446619,19029943,19067068,17918812,17535378,20264437,22641693,19674250,18339861,19360319,21313915,23140320,24919218,26614775,28154217,29053768,30455452,32409481,33386459,34490913,35453693,36330673,36993351,38504875,39542152,40212219,39497787,40223824,39896614,37770222,35315502,34366131,33470463,33403034,33308537,32910957,31936186,31024960,29743793,27942924,26996767,25906208,24483946,24175800,25098301,28363895,27046528,25814053,24504681,20021873,15075406,11340987,11316186,10478556,4561989,4862476,5857610,4179816,674487,-9695804,-8738349,-10962275,-9584610,-9781578,-10272657,-11177215,-12739785,-14624654,-14071308,-14238812,-14308132,-14104096,-12548454,-12303068,-12943820,-12712088,-13403563,-14082878,-12348143,-12182196,-11796309,-11387524,-10423680,-9449036,-7008226,-5196636,-3368995,-1160231,-419399,1383401,3503847,5025095,5619088,6167769,7473413,8481789,9418451,10520281,10863524,11639892,13197469,12666432,13054979,14080989,14770144,15471225,15410254,18702065,14184228,9913583,7083933,14167518,28002455,37002632,38444145,38429634,36522461,28388134,27759996,28595087,28901909,26727558,27654053,28242527,26191290,24879377,25072466,23462626,18839714,18398561,18699841,17386250,16616564,15465240,14897921,15812525,16263889,17249517,16540108,16801067,16856932,17325214,17627188,18222538,19816315,18734943,17573242,17713896,17261488,18785875,19832491,19890631,20208752,19947392,21812822,24006178,24908487,23926861,22146357,21526449,21950764,21217428,20794416,18019003,15997919,14898501},
{-30149969,-29017126,-24084179,-17951900,-13776421,-9761982,-6580344,-2519608,1208379,3922638,4861365,5606003,8587301,12210211,14311002,17068731,18925499,19631107,19474764,18909679,20286856,23098421,23125854,19674210,19247711,20560946,22918940,24734182,26674057,28473841,29590374,30991226,32648838,34109150,35453468,36385750,36989872,37822472,38618389,39393307,39970867,42488319,40050323,40791039,39761154,38130733,35291584,34126122,33862122,33478683,34418884,32341736,31295176,30321663,29325268,28099232,26864933,24876049,23110632,22587395,24117243,25032295,24109690,23242109,19820431,15432425,12878914,9462162,7446065,4320384,1104500,1581777,1936325,-3773027,-8310938,-9566897,-11587572,-14787350,-14134255,-12352606,-11677593,-11533867,-15051508,-14516702,-14838021,-15088469,-15832345,-16112848,-16301449,-15259140,-12952582,-13676855,-13969895,-13772699,-13308043,-13181698,-11910603,-10602147,-9267390,-7997284,-6068179,-4485572,-2743618,-1083570,318426,2455757,3532523,4795804,5707779,7311687,8701880,9606543,10070786,11038633,11813839,13751353,12062676,13149557,15596182,16833084,16423222,16010731,17315104,15376147,13122016,17048094,20774902,34512188,37167473,37368294,37646729,37027294,27400112,24979898,23906181,26641697,24582283,25624395,25555586,23709457,23351601,23062260,21234146,18016176,17265007,17783178,17428789,16368824,15833305,15181512,15445532,15463087,16657824,15556588,16088993,16772089,17567772,16967962,18440870,18756815,17647467,16775173,16864687,16351772,18137104,19314508,19027029,19217976,19266253,21171923,23737631,24468914,23845921,22053619,21293104,21736965,21089884,20766790,18001074,15989607,14898501},
{-30149969,-28986279,-23990952,-17903910,-13736891,-9614629,-6324005,-2357113,1181682,4036576,4979245,5772464,8961876,12428676,14353279,16843103,19122793,20765202,21302855,20415339,20344271,23219683,23806414,22704887,22485598,20923157,23080683,25038677,26812981,28893618,30344225,31873686,33186558,34281002,36126770,37341366,38134674,38703247,39241810,39712059,40087582,41684521,42630035,43695862,41521088,39196373,38080376,35488583,34277843,33031879,33907131,32317707,31507723,30528357,29882891,29813164,29234060,25686832,23195782,22426847,21408155,19547815,19082283,18417414,16150389,12512579,9559871,6270124,3877176,3834748,1288841,-1714802,-2348759,-7206605,-9999205,-11402725,-12058013,-12814934,-14008113,-16165852,-12931193,-11331004,-15117747,-15026246,-17423571,-18168919,-18552382,-17931128,-17407713,-16978542,-14874935,-13554499,-14191677,-13373280,-11862625,-13403314,-12965359,-11796837,-9994600,-9337584,-7791382,-5460289,-3589638,-1928712,-720487,495700,2906702,4040904,5917918,6615506,8123421,9317779,9582074,10961828,11025718,11212108,12337620,14954900,16794119,16064909,17812864,16789816,16284975,15478597,14677060,28861116,26949856,34062111,36294460,36631538,37218395,36509762,29468435,22021107,20927097,25357178,23195513,24062992,24126091,23030298,21438911,20398005,19842531,17629824,16676147,16839588,17407196,16790691,15460711,16524179,15738331,14763282,15928955,15021030,16143261,16960619,17607435,17323885,18493376,18029537,16659880,16297693,15964223,16139664,17448990,18601482,18376377,18368916,18674473,20494698,23114918,24117521,23825054,21976509,21023409,21581930,21004400,20727306,17985197,15981346,14898501},
{-30149969,-28955706,-23905859,-17866388,-13719605,-9547844,-6191096,-2319612,1068425,4111555,5058331,5928506,9297549,12578067,14441148,16834593,19567198,22018366,23013397,21839277,20389637,23097525,23816484,22469801,23477316,24028389,24122744,26055761,27467110,29358736,31098841,32523212,33795822,34970867,36877075,38224537,39203804,39731606,40063095,39995998,40501022,42097660,43206013,45360397,43983784,42715485,39779659,37632961,35814846,33961555,33343376,32326485,32361347,30972195,30355320,29707834,29482159,27455626,24442400,22519705,21137522,18524607,17693003,15633763,13519005,11598665,8922142,6068886,3630390,569181,-632847,-4248080,-5418824,-7547074,-10620358,-10845852,-10404868,-14651278,-16503033,-13758414,-16445511,-12536948,-16137247,-15895059,-17785336,-19897053,-20040421,-18207699,-18207670,-17766893,-16577204,-15461293,-15368820,-13627425,-12267801,-13319776,-12944894,-11288769,-10609340,-8035275,-5932415,-4384818,-4239497,-3083748,-1352756,-16452,1830103,2987045,4482197,5467260,6975839,8658571,9957138,11103679,11709619,12533923,14071818,13445599,16234804,18576307,18095062,17007050,16208284,15788444,15263251,24636271,24770243,33977684,34784302,35841209,35669548,35599495,30862486,20709776,19701281,25056849,21361439,22655489,22892002,21013411,19575890,18057734,18320498,16962378,16216791,16320196,16885635,16317793,15598188,17203512,15783227,14918026,14703214,14628720,15809125,17291296,17733105,17322147,18440193,17251823,15873055,15779196,15513331,15918493,16605381,17737307,17767496,17659655,18038784,19706415,22455141,23647432,23836245,21870434,20712105,21404526,21032522,20676470,17973761,15972767,14898501},
{-30149969,-28925428,-23830246,-17835754,-13732803,-9567849,-6185444,-2414032,887713,4135110,5099414,6079517,9608691,12658872,14567682,17060804,20089493,23070534,24324871,22938499,20470703,22623402,23284775,22140732,23209335,23384388,25479752,26982622,28277712,30025673,31687260,33007744,34308853,35780674,37532516,39089619,40268997,41125854,41110332,40924187,40847557,42513687,43980331,45125320,44768562,44420288,41732410,39695885,37190464,34787788,33273506,32354649,31010145,29567753,29393282,28968061,28826473,28713558,25319096,22433119,20418169,18077290,16683382,14437864,12191522,11298820,9257073,5911645,2071791,-1678473,-3638092,-5982234,-7989327,-8905198,-9479847,-12518736,-15023747,-17274038,-18598473,-16361225,-16015833,-14487672,-15746658,-19302887,-20562607,-19003569,-19275583,-17614708,-16748377,-15351432,-16332859,-13168962,-14805422,-15092572,-14498691,-13692100,-11738287,-10196146,-7736019,-5994381,-5636897,-5679186,-4974452,-3282144,-1624782,-539806,653222,2512081,3948462,4874869,6189995,8643185,9946848,9723774,11685077,11139921,11491343,11569942,14124526,16983316,18083181,18058952,20043808,20405779,17841440,19151447,23154072,26942200,35738895,35260715,35367008,34103249,28721601,19782385,16415962,21775637,19427942,21439142,21582077,18669043,16006950,16027246,16086481,16130409,15799531,16007456,15944726,14573962,15312895,16290558,15442335,13927176,13806425,13836672,15480180,17511826,16924032,17831053,18110697,16157206,15245128,15131182,14970139,15434735,15731239,16841284,17084543,17023655,17530170,19012648,21844549,23168541,23757288,21692472,20416859,21216623,21138876,20637724,17967634,15963060,14898501},
{-30149969,-28895647,-23763264,-17808548,-13762733,-9655370,-6290328,-2631736,623950,4141263,5130225,6223262,9853271,12683121,14708440,17417509,20589022,23743778,24970686,23545057,20473688,22026979,24002176,22870298,23613836,24770542,26272772,27833399,29108185,30777510,32147030,33302071,34692341,36497677,38304443,40053654,41257580,42340881,42445919,42247456,41764099,42649853,43394661,44910824,45851273,46515408,44367992,40975544,38579079,36420052,33611691,32229164,30121271,28316370,27073778,26476429,26743160,26128647,24220694,21787996,19585150,17557951,15384821,13042607,10207631,8479861,6208261,3103922,-273492,-4456835,-3825334,-6525031,-9866980,-12129015,-12372489,-13746420,-16174257,-16477009,-19464504,-19627373,-19478022,-21239420,-18156937,-20977335,-19732086,-18851112,-19206875,-18728878,-18544706,-14395510,-14398811,-15514566,-16283243,-16890232,-16664331,-15849885,-13473071,-9892280,-6743504,-7091074,-6707001,-5572739,-5102315,-3515139,-2019493,-874943,-54376,1925854,3553619,5392905,7178326,7886458,7862148,7414103,8367058,9256210,10314000,13082001,16619362,17568159,18846785,19997679,20931576,23269154,27388796,24836185,25822039,28174702,33623093,34574776,34225899,32347561,24742348,18494255,16236391,17121798,17034601,19981201,20026295,17144241,14136322,14208628,14278830,14078321,14854065,15765577,15494466,13419514,14463860,15110812,13608023,12303439,14123875,14012589,15239291,17453449,16105467,18187046,17447866,15029308,14580350,14332766,14096131,14456125,14879589,15784138,16201971,16364485,17032110,18275562,21242416,22683161,23635094,21478069,20156330,20962494,21220448,20590223,17965178,15951237,14898501},
{-30149969,-28866682,-23702961,-17787027,-13810126,-9827319,-6493527,-2918500,329341,4097626,5163864,6358459,10021590,12660918,14828631,17807917,20946817,24044867,25199888,23697681,20461229,21329647,25768620,23127127,23571953,25356527,27059616,28488613,29803823,31271723,32598553,33788033,35377190,37254898,39039295,41101799,42544418,43554253,44162498,43383129,42940506,43255367,43551064,44521908,45797459,46969994,45688007,43276131,40134018,37211491,34530411,32413464,30249054,28327305,26547468,24896782,23527975,21758875,19997133,17423178,15566325,13091054,12502337,11601559,10261215,6593781,4657582,1493084,-1547984,-5428121,-9290613,-7053791,-9202359,-13484296,-15745387,-15550908,-16950142,-20158255,-22535135,-22026049,-21663458,-22113199,-22278957,-21658306,-18558086,-18511780,-18469757,-16625412,-15391683,-15811105,-13374718,-14864212,-16041746,-17253174,-16909893,-15427312,-12317437,-9789301,-8283754,-7187948,-5459212,-3072563,-2926136,-2955587,-1705925,-1057567,406016,962817,3864267,4693205,5650547,6153178,6290550,6643029,7569441,9321737,10785870,13859954,14374071,15174259,16784184,17736166,19887354,22476292,24886484,24507671,25782007,28460049,32405785,34028786,34014042,29957235,21176796,18928507,14319933,15244698,14142748,17521997,17938772,15561607,12478264,13031607,13344756,12611817,13084484,15211036,15848557,13483143,14335993,14424242,11718321,11576028,13806405,13810340,14978399,16603394,15231131,17258823,16311653,13896768,13804830,13284379,13157207,13625180,14284630,14815387,15285456,15666557,16485773,17675947,20583805,22198986,23411932,21235760,19936815,20630924,21234449,20504232,17962065,15936461,14898501},
{-30149969,-28838894,-23648153,-17769770,-13878500,-10077209,-6782710,-3283014,-4240,4034811,5206508,6489130,10102981,12610115,14883771,18127586,21121670,24042974,25185631,23598402,20519936,20962185,25247301,23523949,23708017,25929108,27627449,28988174,30589090,31894154,32886681,34268021,36305496,38147247,39653629,42564194,43884193,45174946,45210022,44492889,43309311,42298866,42879856,47230412,45618572,46636917,46236256,43772366,41333927,38727985,35273327,32963707,31185884,29020462,26908287,25193676,22944025,20569359,18075607,15811530,13899201,11775083,9889520,7382664,6354574,5615548,3674601,381907,-2487311,-4776407,-10850326,-10746540,-10844344,-14530187,-17535295,-17363863,-18178766,-20315874,-22881550,-23181412,-23135244,-24164661,-24544035,-24272371,-22833370,-22873402,-20938650,-19753052,-19735903,-19452114,-19606985,-19666649,-20687366,-20098497,-16849779,-14573299,-12903908,-11199511,-8119145,-6608091,-7463530,-3917672,-2718846,-1086986,-2422070,-1109338,925824,591367,2046076,1769006,2637208,4123400,5091256,5964634,7666888,11769577,12210294,13345726,13141670,13616948,14911633,15850172,18699755,20532543,22157679,24125713,24106998,26083246,30727362,32754288,33435589,27514040,19607407,16749760,12206343,13608500,13000752,14706747,16333101,12932171,11215844,11881056,12325178,11438993,11350659,13930777,14724698,13217734,13832176,13739123,11256537,11935613,13186219,12916084,14781216,14948081,14679988,15795436,15126248,12891475,12885190,12023129,12119367,12774321,13498195,13888465,14453780,14967775,15781866,17206335,19893560,21585817,23103519,20971222,19703066,20303267,21182167,20394001,17951735,15918371,14898501},
{-30149969,-28812567,-23598783,-17754530,-13955898,-10350766,-7147675,-3691109,-355953,3925780,5263800,6614268,10093461,12552548,14878377,18307642,21161303,23892796,25048899,23464441,20856773,21684107,25551085,24190035,24097435,26294054,28173347,29690559,31333811,32491322,33523144,34890411,36831768,38760330,40735260,43585968,45415535,46320881,46311443,45708946,44590836,43377750,43094051,43617401,45752346,46340187,46207561,44161823,42149982,39873623,37072674,34245594,32251274,29940933,27286249,25238737,23162298,20673264,18178583,15836689,13444840,11248773,8575100,6304098,5631778,4532123,3014282,839660,-2093807,-5888000,-9293462,-11895435,-13169151,-14548689,-17971024,-19366802,-19809851,-20742342,-22838585,-23647259,-23473381,-25608664,-26613214,-26330671,-28094719,-26225254,-24702021,-24723452,-24925831,-24114908,-23356836,-24278109,-23487724,-21593369,-18130537,-17412548,-14110451,-10816916,-10706811,-7766932,-8060402,-3781315,-3456582,-3965657,-722410,598764,-1537237,-753996,-381867,1264392,1917403,3368299,4895655,6253383,8760017,10146031,12062095,12896808,12259049,12193849,12938058,15587906,17474842,18759375,19571596,20508533,22215717,24383608,27683399,30727209,32674423,26565599,18152691,13418138,15049623,12234232,11904627,13269653,14395436,10624683,11194317,11323694,11100837,10174057,10439857,12264809,12898878,12924137,12766405,13804949,11740725,12381680,12285852,12851225,14144312,13526606,14695118,14870149,13947715,12180918,11789962,10794803,10991022,11892718,12576640,12986506,13511581,14224413,14953888,16666546,19157694,20710121,22773443,20657032,19438900,20059380,21105242,20287212,17926653,15897244,14898501},
{-30149969,-28787828,-23554815,-17743605,-14042212,-10662729,-7542066,-4117764,-682392,3804159,5337131,6707200,10003481,12507960,14807026,18332960,21090355,23677389,24924597,23435530,21642218,22639751,25681635,25390238,24620390,26724989,28694614,30282061,31802633,32871220,33951916,35492985,37288334,39092079,41368149,44482235,46529903,47482456,47422489,46292465,45198833,44430408,43885201,44453388,45326065,46393082,46705055,45825993,43031616,40668167,38765244,36223114,33660229,30808270,27965038,25640821,23462557,21022474,18715107,16234116,13684780,11055990,8704355,6368865,4434066,3666363,2465587,-67363,-1869641,-6781308,-10208873,-12763420,-14213741,-14942960,-16414221,-20013651,-21142635,-21161343,-22963345,-23543636,-26614962,-31372034,-29092236,-29557922,-31679497,-29996618,-31424135,-29617504,-28854836,-28201969,-27623369,-27085709,-25236929,-23758905,-21364429,-19136415,-18870106,-12221208,-12288594,-11661840,-9559093,-7441874,-6672213,-4814073,-3551728,-3770142,-3842565,-1975605,-611246,175832,1829736,4211509,6437835,7822472,8618746,9542505,10991837,11558659,11412562,10655666,10857017,12396174,14032044,15662494,17248360,18326744,20801977,22616171,25740349,29560017,31133862,24996502,17382095,15881877,22185627,12666476,10861034,11567515,12297306,9993314,10843505,10296434,10120427,9338140,9791872,11513336,11739804,12143879,11995417,12882027,11359427,11545132,11592660,12306433,13793249,12750417,14216362,14109633,12521893,11573620,10641462,9798223,9991038,10743986,11636561,11994629,12348064,13444782,14229719,15989975,18454203,19992996,22215660,20321539,19152206,19869303,21008846,20204977,17881437,15873956,14898501},
{-30149969,-28764631,-23515594,-17735296,-14124148,-10992228,-7943698,-4524919,-981581,3664646,5418522,6775632,9822499,12489706,14727360,18204304,20949913,23473566,24806370,23635372,23051001,23752544,25527235,25834352,25244080,27336124,29353334,30710386,32208481,33202068,34336224,35957607,37630527,39306416,41601463,44691517,47435387,48425995,49153419,46525261,45301823,44741425,44172176,44013363,45247719,45991234,45744717,45639427,44006145,42172787,39738827,37422615,34747509,31095634,28345072,26198627,24349001,22173368,20097618,16573978,14021699,11759844,9788485,7288125,4930868,3301708,1814328,219688,-2548971,-6149588,-9375488,-12134933,-14777880,-18072899,-21154873,-22611597,-24482655,-25204773,-26427019,-26797932,-31294029,-33493847,-33449100,-33935890,-34497898,-34305386,-32799080,-31394358,-30577139,-31449356,-30950600,-29554081,-27872810,-26553587,-25702667,-23023687,-22010841,-18644550,-16256798,-12517375,-11738073,-9970066,-8657525,-7643034,-5567631,-5944952,-4651206,-3103377,-2456932,-191999,1232596,5901560,6361116,6687053,7408950,8762035,9473624,10583560,9802361,8364114,7821449,8610844,10736769,12619617,14708710,16636076,18664152,20798370,23667248,28602831,29400904,26975523,16988659,19643606,22058159,12651528,9076562,9300956,9839670,8957320,9692376,9001480,8500847,8527983,9353751,10213375,10364436,10659216,11381342,13013941,11387676,11458220,11643216,12222554,13390677,12317033,13042708,12962472,10943694,10564026,10013517,9117644,9167932,9676270,10629188,11012938,11321536,12677896,13500592,15161757,17778778,19653185,21521198,19995197,18837442,19669241,20871548,20165812,17816938,15849731,14898501},
{-30149969,-28742792,-23480639,-17725819,-14199665,-11319945,-8327325,-4893697,-1248006,3505929,5487212,6809654,9578741,12526237,14687704,17985262,20769241,23274208,24653164,23983553,24913389,25241541,25100819,26727938,25807442,27871456,29589436,31112814,32431789,33462158,34682610,36091270,37664848,39232552,41715862,44741837,47364773,48276402,48515762,46897095,45153248,44547932,43750656,43315887,47197899,45505867,44839352,45151474,44285213,42879227,41247772,38586575,35592964,32127575,29596912,27169956,25158009,23420668,21477741,17995220,14986508,12070802,10027972,7633744,5282174,3366275,1610199,-238539,-2683478,-5839612,-9366520,-11541897,-13786906,-15989798,-19810116,-21309988,-23102394,-26933823,-27047855,-27220167,-30001806,-33320225,-35117313,-36329254,-37511402,-37593437,-36926994,-37497440,-37701786,-33516411,-33293865,-31544609,-29584763,-29182085,-29763466,-28634846,-25141285,-23819950,-19741201,-14999625,-13159893,-11755631,-9646534,-8588918,-8254382,-7361172,-5948531,-4390061,-2654018,945561,4056515,4049821,4508313,4979095,5617762,6239117,7568576,8629606,6963369,6210068,5012031,5727914,7146149,8533156,11215488,14234905,16020563,19042555,22941294,26653582,27784643,27004559,19582037,23877220,19473061,11712482,7451513,7536874,7244921,7754393,7933640,7263736,7442020,7759021,8085203,8711635,9129358,9293498,11133521,12611161,11203419,11378775,11367568,11835618,12161597,11600487,12036424,11890643,10362444,9782283,9357586,8611339,8460434,8865656,9604531,10115463,10513932,11857696,12843533,14532430,17196556,19484903,20840418,19693256,18505526,19441893,20734423,20135855,17741190,15825793,14898501},
{-30149969,-28722078,-23450579,-17718596,-14270227,-11631287,-8689813,-5206527,-1456649,3345711,5528337,6809228,9307415,12607950,14744125,17727142,20528160,23055389,24433895,24397144,26824736,26917259,25142878,26879620,27017971,28045067,29429619,31126305,32451225,33402855,34740746,36133808,37661217,39429790,41534157,44658024,46659763,48681660,47908962,46832054,45037846,44452209,43234211,42851009,45247719,45453106,44851971,43669182,43628838,42859867,42680313,39747585,37071926,34015896,31792162,30360577,28029194,26471355,24073509,20602032,15531044,11528309,9146302,6945810,4755698,2298239,233840,-1660192,-1669063,-4728451,-7678893,-10219269,-13386070,-15789059,-21272800,-23370165,-25200039,-27841763,-26259386,-28797016,-31623304,-34157967,-36066990,-37075890,-38432312,-39483891,-39595093,-39756130,-40571632,-39630150,-35157463,-33071861,-30396523,-30067564,-30500429,-29655321,-28612619,-25721527,-21640766,-16564564,-14250106,-13662513,-11942996,-10883541,-9704766,-8075330,-6111552,-4362342,-131464,857557,-344273,245180,1822130,2658301,4545732,4293903,4202903,4772995,4025997,2771262,2441744,2240481,3234313,4442919,6198572,9360746,13326856,18585333,25023169,25970144,26272932,25753803,21062914,23907980,14573498,8641260,5862223,5315413,4742388,5139269,5638276,6177928,6788540,6916762,7183571,7335517,8440390,8658977,10120214,11411062,11231130,10840684,11234646,11920755,11401369,10414935,11966976,11533732,10035580,9041245,8628983,8138385,7726860,8021925,8793721,9537169,9954100,11143906,12315812,14213619,16725353,19125856,20355507,19406120,18235155,19194248,20593164,20034401,17664112,15803010,14898501},
{-30149969,-28702299,-23426672,-17714682,-14327853,-11914807,-9001223,-5457017,-1602157,3177441,5537677,6781100,9007153,12701593,14874299,17460709,20226404,22800108,24158152,24714657,28312344,28326963,25591450,25968958,27560528,28065470,29335022,30943380,32312767,33375988,34692337,36257168,37751389,39489754,41617123,44331421,45817764,51307522,47492554,46831364,44686405,43483696,43680653,43971249,43926540,45740097,44850101,43751923,43762131,43262409,42818447,40280418,38374249,36303116,33724239,32845459,31326658,30950979,26642475,22720919,18318823,13409454,8286455,5773885,5867571,5734072,4708696,3270037,619649,-3353467,-6696969,-9263278,-10910829,-13886038,-18732758,-23917187,-26307896,-27132284,-25353289,-29139973,-32326736,-34410198,-36360992,-38076519,-39094700,-40488701,-41094891,-40653641,-41105843,-41561718,-41336658,-35849609,-33066803,-31564833,-30848520,-31204466,-29374676,-26872248,-21872002,-18677881,-17726679,-17311026,-15341175,-11691664,-8231954,-6267323,-4160985,-3703405,-3785953,-4162011,-4240562,-3308790,-1525673,849086,2486975,1173748,757170,414190,-444419,213168,-17083,-500129,-1214434,-755830,1633422,5286114,10127992,18702269,23739815,24383963,22506804,23863529,19496880,17903658,7344654,4439937,3627267,2709854,1017455,1521257,3629536,4814210,5532420,5103337,6632771,6596949,7965399,8310025,9359131,10125422,11023145,10164634,10791312,11070018,10319418,9235053,11795715,10816175,9734682,8281315,7842886,7680510,7059148,7172652,7997781,9034161,9595281,10554269,11782356,13995163,16284103,18766302,19999857,19133989,17990093,18922686,20386126,19845142,17589256,15781690,14898501},
{-30149969,-28683367,-23409298,-17707682,-14373879,-12163748,-9233889,-5620809,-1664346,3028220,5496932,6727893,8724620,12808436,15070895,17209946,19832689,22514784,23962284,24980171,29091164,29145180,26358513,26674665,27878452,28613691,29228981,30936937,32106758,33179382,34671654,36269466,37878151,39619137,41676952,44222118,45634022,50661766,47404240,46695957,45048908,43948147,44197723,45105263,46211929,45881069,44994095,44003365,43883278,43729759,43063354,40661301,38993469,36901546,34676529,33389393,33009415,30347328,26077774,22610975,19448606,14760247,11591336,9418479,8647106,8397254,7635118,4208154,394854,-2724367,-5861737,-7532381,-9544868,-11593629,-17658541,-25127707,-26161909,-20785421,-27153955,-30184074,-32646427,-34938763,-37401390,-38874992,-39955151,-41635941,-42861904,-43210876,-43731304,-42832912,-43575138,-42045090,-36545856,-34638481,-34134865,-33122036,-30943789,-28731079,-24965521,-22003023,-19173857,-19667543,-16951756,-14281193,-8889377,-8853765,-9343696,-8555791,-9242891,-10080629,-9452084,-7915652,-5167694,-2671393,-978327,-810646,-1761105,-2419885,-2970400,-3061254,-3916537,-4926439,-5225818,-3706714,-635990,4516163,11022471,18887434,20302807,20753365,21831297,19502655,15487440,12968240,2409348,843784,1243891,-666602,-2844890,-2671583,412913,2885992,3352244,4659578,6006117,6629077,6897060,8630830,9072377,9132389,10258079,9547997,9463544,9748039,9334411,8564621,10840809,9304263,9729315,7715971,6934783,7044649,6554630,6430396,7301703,8337886,9153230,9938145,11259421,13707957,15841349,18449816,19641256,18870295,17723827,18544529,20112740,19621449,17510664,15761571,14898501},
{-30149969,-28665302,-23397337,-17697987,-14404512,-12356071,-9385552,-5693388,-1653210,2900786,5401186,6660606,8499165,12882103,15277937,16985229,19388416,22195660,23952044,25280418,29175966,29248775,27153198,28960215,28877014,29298429,29390064,31154228,31813833,32750694,34581970,36297092,37739368,39575317,41726162,44257832,45311172,46467525,47446045,46304516,45280415,44829647,45076832,46299961,47011074,46449661,44743412,43781990,43327873,42662918,42197666,41073639,39075691,36777611,34642704,32831177,31539669,28447695,25221004,22041750,19605150,14843592,12503699,10524512,9154071,9541039,8284324,6524227,3574058,131387,-2304041,-3204447,-7085512,-13007668,-17585920,-22902918,-25439064,-26910881,-28675508,-31337872,-33255501,-36719837,-39260174,-40604454,-40906406,-41820354,-43591316,-44829144,-45351292,-44856262,-45009411,-44174133,-40405659,-37486916,-36919159,-35942852,-34018719,-30982597,-28031099,-24105696,-21243958,-20654060,-19038046,-17483105,-11702771,-12104637,-12341084,-12656537,-14524400,-14999432,-14604204,-12454226,-9290230,-7477636,-5330637,-4452081,-4255617,-5832155,-6607542,-7024968,-8294037,-9783229,-8915551,-4836196,4027734,7731459,14301252,16546804,17339626,18990545,19432766,11601669,13639283,6323555,-1872103,-2048507,-1428944,-3369846,-5106593,-5317067,-4777791,-645474,1556665,3534048,5004159,5822331,6685426,7965574,8703660,8701447,8595531,9070848,9038074,9350261,9128995,7847459,7925397,7676312,9278739,7146292,6011157,6233534,6008552,5811704,6772041,7658022,8529866,9348430,10707681,13182048,15388050,18105146,19230883,18607784,17442110,18156311,19808069,19371874,17418909,15742023,14898501},
{-30149969,-28648195,-23389324,-17690941,-14415740,-12503572,-9469038,-5684684,-1576216,2799166,5249356,6587944,8337110,12899699,15442096,16801142,18916027,21887753,24165802,25693514,28846638,28950665,27796593,30747099,29918974,30054028,29954361,31158110,31739595,32449070,34325672,36009708,37663033,39287628,41686684,44171299,44532127,45766041,46973953,45676189,45497139,45179623,45380489,46265034,46772392,45974834,44594063,43854103,43134430,42875061,42254654,42574001,40881859,37080349,33771450,31691008,29543303,26387897,23700825,21232704,17872255,14922591,12134292,9272792,7199529,6374417,7080307,3618898,3901539,2044770,917386,-1083772,-4770881,-11365748,-16358227,-19386934,-23970306,-26574652,-28736494,-30575710,-33347168,-32074169,-34600521,-42831451,-41722893,-42705505,-44162910,-45216755,-46881580,-47462704,-47713493,-47375423,-45561234,-40691486,-38760838,-38618301,-36436283,-33514675,-29768604,-27056269,-23421591,-22609400,-20737761,-19313728,-16196396,-13782295,-14488994,-16279346,-18372456,-19059626,-19520794,-18638525,-16269800,-12820251,-11360845,-9182100,-9733761,-10368536,-11026317,-11080009,-12339448,-13870151,-11501662,-1930396,5288805,10818749,14513608,15709477,15449808,13911727,10746341,6350009,11698075,-336640,-5670043,-4567853,-3373098,-5371539,-8532524,-6865571,-7411052,-4346899,-233232,2749939,4199929,5400785,6393797,7041807,7846908,7789678,7592530,8171151,8582923,9738628,9104795,7172012,6213009,7037673,8118526,6158549,5089310,5247165,5296869,5184840,6257339,7083010,7926190,8732353,10046560,12525433,14952574,17716421,18795544,18296967,17160368,17860548,19538519,19068848,17310818,15722343,14898501},
{-30149969,-28632126,-23384996,-17684172,-14406146,-12603734,-9461291,-5602754,-1430493,2734427,5053685,6495308,8245575,12849295,15528817,16653786,18485838,21604252,24507881,26266592,28546455,28732672,28512575,30916208,30979761,31014790,29645107,30536530,31664524,32451672,33635551,35565689,37344368,39002483,41262928,43558022,45188416,47717285,45679424,45196655,45454178,45041279,44917374,44533131,44776115,45042469,44404537,44083271,43100235,42188519,41700005,42163200,40916721,37951962,34074780,31268433,28210386,25462538,22855465,18966452,16685974,14740557,12362466,8123346,4896099,3181016,2668813,1330137,165341,-1483442,-1640331,-2371233,-5085980,-8162907,-13082433,-17496906,-18076458,-21162218,-24884003,-31104540,-33188015,-37506618,-39906792,-42546410,-41151493,-43071423,-44225719,-45918678,-46973457,-48785828,-49141781,-49732864,-50007034,-46928253,-42259758,-40608387,-39523991,-35730175,-31184509,-28846308,-24926640,-22970560,-23293903,-21413132,-18955574,-14981279,-16750153,-19353346,-22451658,-23780022,-24230865,-24090555,-22641802,-20238569,-18030733,-15446196,-15214354,-15515879,-15024322,-14853099,-15355989,-15575087,-13123156,-2289501,5725766,11188417,11639227,11995237,13333408,10686196,3115707,6120559,-1344464,-7410730,-8697410,-7141830,-5449217,-7892220,-11625911,-8429681,-8362806,-6783170,-1391767,1494344,2826800,4026484,5088405,6673108,7103110,7403733,7149302,7626210,7904820,9288068,8236963,6761516,6240514,6989326,7030221,4968828,4212173,4108935,4359822,4311958,5506930,6410992,7394530,8099755,9383064,11734463,14393842,17229029,18388927,17882217,16857946,17615618,19316505,18739618,17193209,15702061,14898501},
{-30149969,-28617117,-23385412,-17676239,-14382112,-12638793,-9366399,-5452715,-1230291,2715473,4828939,6393012,8219426,12724986,15526763,16568110,18157072,21314459,24827076,26904896,28533794,29026506,29475906,31353947,30482353,30845667,29070976,29855486,31320053,32107864,33326061,35068230,36824703,38552883,40589066,41984123,42920383,45410343,45081230,44698811,45065243,45123825,44664295,44643860,47392616,44779625,44358223,44149529,43263573,42156727,40817490,41161915,40281563,38616608,34356544,31256212,27860138,24859945,21705061,17827587,15126251,13621135,10911349,6567832,3795595,1484481,-523899,-2538347,-4971106,-5877253,-6515364,-6466156,-7159081,-9567119,-11333182,-12775783,-13504480,-18703867,-24317238,-30384045,-33054699,-34283051,-37175346,-37977386,-41627602,-43177116,-44244549,-45654537,-46832001,-48163315,-49741589,-50655659,-51514484,-49187977,-46511616,-46102898,-41928787,-38770031,-34099186,-30759415,-27845713,-25647125,-25459412,-23611429,-21328581,-17994877,-19284496,-21729023,-25859335,-27381018,-28114147,-27971344,-27267807,-25874884,-23703390,-21825754,-20949230,-20215813,-19020676,-18534237,-17460703,-15514581,-11751739,298288,6866980,9259855,10264429,9059413,4059761,-1550311,-8810283,-6811508,-8995645,-9107345,-9982083,-9318427,-7507414,-10676078,-12619931,-11553908,-9901071,-8756207,-2798739,-46579,1426826,2512685,3904105,5331108,6009508,6561069,7054106,7125509,6753170,8279832,6954424,6410508,6653497,7168581,5578768,4228468,3421039,3064225,3201499,3185693,4652645,5556841,6871201,7500955,8814335,10952794,13809290,16632704,18000273,17302759,16571383,17396730,19101446,18432547,17077471,15681095,14898501},
{-30149969,-28603094,-23391569,-17672091,-14344471,-12620502,-9204852,-5256682,-998823,2745720,4575884,6268459,8239875,12540761,15442696,16527496,17959740,20998846,24919291,27410583,28824152,29945112,30837194,31963440,31223072,31137487,29107090,29553293,31054831,31885891,33148201,34265572,36438251,37955681,39813210,40323708,42400818,43953136,44336720,44238506,44594803,45065331,44951656,46594978,51428104,45240021,44056824,43845329,42553745,41504414,40690651,40357311,40832733,38332977,34436401,31176847,28001537,24340731,21032921,17457296,14682095,11344227,8252503,5082870,2729262,889830,-1673830,-3999760,-6432496,-8895298,-10981241,-12417071,-13327435,-12477937,-14260071,-14159666,-16263931,-20280556,-26171698,-29812281,-32026718,-33795021,-36203468,-38570065,-40785061,-42808147,-44187256,-45362804,-46905785,-48284473,-48845573,-48900269,-49279930,-49524982,-49075680,-48713028,-48901043,-43203724,-38482796,-34440632,-31665709,-26741764,-27625837,-25598913,-24460056,-21718954,-21138649,-22709898,-27591892,-29536901,-30703745,-31247387,-30872646,-29631907,-27770800,-26423582,-26157576,-24889460,-23479395,-21055429,-17932955,-10925225,-3381613,4721907,6324596,6780283,6169775,5695640,-9215675,-13674363,-17694569,-17918163,-12604868,-10078097,-11110209,-11086905,-9677745,-13046502,-13750261,-12927038,-11704329,-10598243,-4432521,-1332374,405856,1566360,2693220,4230031,5053923,5720100,6220811,6510077,5651086,6288904,5629485,6362056,5754993,5674343,4236278,3462866,2529614,2279832,2466031,2499632,3937639,4765509,6315983,6923857,8343348,10270535,12972788,16058611,17646532,16637922,16309258,17137403,18917425,18151102,16971397,15659745,14898501},
{-30149969,-28589912,-23403316,-17671228,-14286821,-12546750,-8974299,-5034364,-743265,2825876,4323475,6121000,8271262,12320393,15346279,16516222,17853088,20649652,24719650,27656401,29301016,31334677,32518738,33072994,32203857,30340122,29254881,29545534,30875645,31794992,32983379,34407410,36073933,37522648,39276863,39994419,44006397,43957554,43876389,44148636,44393555,44956608,44986313,47833477,50507679,45015369,43624069,43235882,42220867,41373966,39942909,39828651,39295719,38056686,34396755,30613857,27350220,24021742,20623888,17127415,13942556,10474969,7424995,4413482,2195202,756193,-1856951,-4723446,-6585060,-9131019,-11085785,-13083503,-15177458,-16828419,-17330147,-19210838,-21703182,-25184654,-28398493,-30819725,-30154158,-33444008,-36625782,-37894730,-40216042,-42079151,-43665119,-44838837,-46386856,-48086487,-49085831,-49959949,-50025112,-51546749,-52373844,-52477833,-52177032,-51220440,-46850739,-41158524,-36484894,-33089958,-30251572,-27868856,-26579460,-24185465,-22440903,-23493521,-28517872,-31589537,-32685707,-33133354,-32709007,-31520838,-30433928,-29424784,-28366869,-27142784,-25846544,-21808514,-12937186,-4545641,-695047,2947813,4820552,2728714,6771626,-2705743,-12694302,-18415600,-22112883,-17594748,-12839622,-10488367,-11771906,-11922259,-11487823,-14263721,-15143250,-14787842,-13423471,-11892881,-5976777,-2494415,-235339,709268,973379,2364595,3896868,4626884,5109540,5433709,3837729,4141868,5075983,5340677,4018851,3968662,3451683,2984281,1862155,1876709,2752472,2359530,3466820,4329052,5778358,6401819,7858040,9670115,12537243,15400147,17263887,15995138,16026520,16904871,18756300,17889359,16876133,15638490,14898501},
{-30149969,-28577410,-23419783,-17671223,-14218764,-12433434,-8687646,-4781197,-471416,2949670,4088151,5936211,8267163,12093168,15262542,16499815,17781918,20306622,24271257,27577417,29749771,32816685,34054550,33935478,32608093,31102524,29322136,29478279,30768618,31650743,33096786,34477985,35380554,37127193,38831635,40889153,45293388,43263756,43264812,43967915,44369873,44687054,44573811,47479115,47211773,44168613,43525898,42762512,41080311,39953251,38777966,37328625,37211227,37371082,34929039,30541624,27032038,23401514,19891340,16887695,13886770,10534628,7170777,3945677,2156202,861077,-1251348,-3692654,-6439512,-8730842,-11235456,-13535257,-15774317,-17396528,-19138908,-21435596,-23408634,-26055475,-28543316,-30357780,-32352165,-34319641,-35820507,-37238213,-40223175,-41914452,-43932934,-45483856,-47355637,-48485920,-49246468,-50292522,-50721073,-50532482,-54233715,-53941776,-53442345,-53179157,-51573494,-48416252,-43857346,-40344395,-35045570,-31051731,-29100348,-26703495,-25867975,-24409815,-29013254,-33189274,-34334103,-34708313,-33924194,-33044533,-32139797,-30835457,-29781275,-28256886,-23569885,-15373070,-7136257,-2885412,-1464542,1157245,164576,-835561,5183863,-8068056,-13240063,-17762951,-19150043,-12421824,-11458948,-11701820,-12465147,-13287374,-13690047,-15291830,-16157064,-15440523,-14782768,-13457808,-7450863,-3080365,-1379746,-358363,-614509,589409,2496939,3684751,3974407,3645363,1964976,2483883,3756373,3529223,2649183,2657190,2862195,2140212,1629512,1666669,3142940,2572036,3073031,4021752,5409776,5948451,7424986,9190695,11892091,14791858,16889206,15310960,15745214,16729288,18601051,17661177,16789120,15617701,14898501},
{-30149969,-28565477,-23440664,-17677187,-14143097,-12290493,-8373318,-4524122,-224822,3109408,3895440,5725832,8209862,11843434,15216297,16422157,17604364,20021915,23750832,27270685,30000099,33838764,34934685,34294563,33160660,30955153,29176456,29429588,30727903,31732170,33168602,34458393,35474072,36391083,38707535,40805386,42614143,43028290,43450123,43756958,43959686,44338722,44330425,45490776,44735474,43684544,43332996,42452248,40629128,39060444,37470795,36414455,35783020,35406605,33728943,31773666,27054682,23683960,20488781,16758289,14818985,11417198,7122985,3858069,2054659,742110,-1134403,-2885204,-5764324,-8903898,-11184928,-13390629,-15594290,-17354532,-19657616,-22210575,-24311911,-27246073,-29447952,-31082136,-32524300,-36104084,-35971989,-39220360,-37640522,-42389526,-43983284,-46491524,-48171566,-49126717,-50009029,-50927902,-52059628,-52437855,-52386562,-54628601,-54694183,-53990635,-52610809,-51072208,-47907887,-43932842,-36709850,-33524502,-30809422,-29196215,-28179729,-26809147,-31664362,-34209400,-35365364,-35287117,-34441334,-33306377,-32528175,-31798887,-30752363,-27701031,-20695780,-12634670,-7894143,-3842192,-1993578,-547210,-2540464,-3301319,-336167,-9739787,-13773139,-18675516,-15450398,-11970229,-12246244,-14042217,-14613877,-15798258,-15243073,-16647013,-17605879,-16205130,-15092549,-14478205,-8457013,-4256244,-2894125,-1914534,-2097775,-1415345,947969,2298383,3155372,2742579,1084743,1600734,2434332,1883886,1486015,1880462,1678172,1204759,1211622,1810356,3461770,2873871,2835813,3522499,5232115,5590684,7025961,8819486,11122445,14345723,16503849,14905313,15461715,16574579,18452591,17471266,16707569,15597394,14898501},
{-30149969,-28554110,-23466652,-17691904,-14058345,-12116645,-8028522,-4270293,-4208,3296461,3771019,5508302,8073054,11591195,15216911,16196962,17277481,19858097,23332293,26864136,30045366,34280857,34803642,33910793,33624199,31870884,29151501,29655193,30925859,31774494,33089539,34418564,35236801,36512939,38447472,39865746,41396820,41864918,43119976,43082382,43459888,43699673,44030880,43919678,43554867,43195621,42362717,40946110,39079784,37141018,35933578,34799911,33744034,33168400,32631046,31018997,28366053,23967207,20592621,17720253,15119711,11607655,7665171,4347353,2445244,694193,-626603,-2574369,-5133297,-7973226,-10617041,-13104963,-15696362,-17634785,-19790134,-22386784,-24948538,-27855688,-29840681,-31745583,-32839172,-35367775,-37608891,-39419411,-41399288,-43605450,-44168842,-46017799,-47994835,-49414665,-50696884,-51707111,-52509079,-52459400,-53284660,-53376415,-53988426,-55813038,-53772324,-51844383,-49490993,-46727325,-40308483,-36389820,-33504501,-31635305,-30690939,-29788794,-32534916,-35550426,-36726448,-35693741,-34176754,-33144329,-32966652,-32734272,-31644310,-25242193,-19263306,-13386218,-7509269,-4748293,-3820644,-3772425,-5246724,-6135670,-3193191,-9957709,-16348579,-20515408,-15488682,-13024019,-13867310,-16550200,-16064999,-17838917,-16919588,-18561216,-18943439,-16429924,-15584146,-15375756,-9523308,-6039628,-5121413,-3856775,-4682386,-3251836,-466211,1319563,1813658,1395752,244094,1382271,1154633,773635,975873,1667803,801012,583402,322528,1476837,3170876,3590884,2828243,3138548,5188765,5340942,6729292,8467440,10584740,13993608,16154715,14471388,15170903,16395542,18300001,17310545,16628651,15577099,14898501},
{-30149969,-28543413,-23498531,-17712145,-13972667,-11939407,-7682953,-4052342,156538,3484555,3726820,5313653,7846756,11294389,15238353,15799068,16721342,19851891,23125479,26485859,29974377,34171341,34166683,33158203,33529053,30970842,29416224,30051811,31273323,31815193,32861267,34185257,35290794,36429119,37808186,39383415,40628094,41450356,42572891,42777069,42870102,43065277,43472366,43369862,43139095,42227543,41042324,39369659,37651081,36289932,34461819,33114708,32417915,31458128,31593613,31210249,28454319,24580366,21350147,18505028,14866256,11040508,7890886,5069169,2792198,1135506,-762144,-2717343,-3806335,-774185,-10552566,-13367524,-15473239,-17046070,-19345068,-21687975,-24972834,-27052519,-29831814,-32103897,-34081799,-35834541,-38132404,-40490501,-42664070,-40620647,-41285572,-46862453,-49107067,-50513767,-51432880,-52706764,-53746155,-53859570,-53630062,-53646221,-53713856,-53930916,-54945019,-53150280,-50671997,-47327583,-43249878,-39589458,-35877995,-33586384,-33088707,-32303146,-32739609,-36340816,-36802284,-35870068,-34142300,-32811451,-33199127,-33889263,-33211460,-26648560,-19701208,-11777042,-6893124,-5188718,-5595225,-5240698,-6529850,-8761398,-6401288,-9832895,-17513950,-19269293,-15515274,-13534844,-16573820,-18276958,-17541965,-19737307,-19223885,-20019772,-20423498,-18983795,-17005951,-16641956,-11741987,-8517476,-7593537,-6030925,-5773457,-4400165,-1537898,256570,495751,-108166,-346609,1003043,186811,294740,834774,645744,146423,-43154,-695755,926004,1827953,3528208,3469008,3247203,5072033,5107078,6430192,8199958,10045854,13361997,15667861,14276182,14927228,16186165,18184072,17169977,16548132,15555932,14898501},
{-30149969,-28533583,-23536144,-17738644,-13893485,-11755204,-7343816,-3852806,258504,3670042,3770287,5165469,7549801,10921079,15183624,15267054,16038719,19972248,23111404,26208834,29960730,33711224,33140030,32347759,32946224,30877964,29450249,30398098,31471569,31656645,32554047,33842468,35017345,36253567,37424690,39111103,40207447,41128002,41580536,41568123,42016834,42567974,42737747,42618275,42508118,41586491,39653484,38120056,36361038,34880676,33241543,31476171,30668701,29808447,28688986,28794731,27576056,25207254,21695089,18168289,14183723,10399629,7822245,5383507,2851873,1216229,-142347,-2878771,-3959621,-2711246,-11744348,-14733973,-15880376,-17313112,-19892950,-22173119,-25268534,-27510851,-30780470,-32901569,-34878635,-36747086,-38838833,-41649189,-44152027,-41163029,-43488899,-49464138,-51097851,-52624767,-52841076,-54039906,-55165768,-55656670,-54917725,-54821354,-53314915,-52726021,-51921021,-50642216,-50506531,-47661312,-44519257,-42024956,-38441025,-36165947,-35862026,-34953789,-33958485,-36367050,-35906563,-35536400,-35276447,-33137806,-30672367,-26807966,-30908730,-30247341,-20058796,-7737004,-5266981,-6463744,-6609264,-8280977,-9472144,-9932805,-9079803,-10095355,-15473401,-19011148,-17404430,-17359491,-19775618,-19920906,-19814463,-21810839,-21759848,-21018227,-21089886,-21137283,-19618698,-18162758,-14201728,-11343375,-9990063,-8223486,-6388718,-4561705,-2441853,-1012164,-962250,-2019747,-721153,54081,-100402,-103739,-280663,-207995,-317312,-816648,-1571302,163601,111426,2536256,3767524,3729012,4714479,4801234,6066985,7914202,9726744,12841397,15152949,14191807,14730197,15985259,18126539,17044310,16460854,15532820,14898501},
{-30149969,-28524830,-23578491,-17774082,-13825395,-11575240,-7031781,-3693763,303478,3833729,3911822,5084294,7219835,10443747,15014767,14615078,15257193,20133558,23165260,26012442,30041527,33158890,32120125,31390837,32505474,30478939,29805998,30762787,31469366,31907558,32634239,33723083,34673622,35966480,37330818,38368954,39535995,40572891,40746124,40869740,41056019,41496094,41872925,41687618,41441689,40397198,38697285,37063961,35282383,33434731,31833963,29979132,28740658,27681591,26759398,26786282,24781380,23075493,20634192,17910534,14171277,9680040,7125711,5064894,2710660,993363,-791615,-2909037,-5981715,-9639477,-12702091,-12284186,-16882179,-18834967,-20887440,-23038454,-25538704,-28875076,-31669291,-33907471,-36143120,-38094425,-40748768,-42627865,-44392704,-44418129,-48776943,-51228714,-53067520,-54453735,-55482506,-55844807,-56347187,-56845356,-56997833,-56160938,-55258377,-53960484,-52860249,-50836567,-50041092,-48707336,-46465237,-43469173,-41544579,-39759743,-39311878,-38617561,-35331467,-34669937,-33592640,-34133060,-33364784,-30112810,-26852358,-28278215,-26440145,-27856724,-18934914,-6805650,-6924291,-8088299,-9958375,-10506775,-10210053,-11524854,-11799718,-12639170,-14391782,-21559952,-20990065,-21425669,-22806459,-22141050,-22591560,-23608831,-24126991,-21725321,-20888371,-21317835,-20804134,-18235146,-13769551,-11445299,-10381962,-9431884,-6392869,-4709157,-3214270,-2273876,-2338081,-2979537,-1976216,-1348136,-1511875,-997046,-1272381,-774551,-1156205,-1452089,-2155003,-977408,-1364361,979288,3641319,4719114,4214793,4366140,5568422,7633482,9435068,12832020,14704577,14076220,14574803,15791710,18100893,16946148,16363058,15506814,14898501},
{-30149969,-28517338,-23624763,-17818506,-13762130,-11415339,-6750413,-3565853,290594,3958117,4131544,5105568,6907784,9872820,14644639,13913300,14447987,20195353,23125147,25833931,30181744,32601345,31393019,30862894,30688652,29654715,30063128,30871283,31334925,31841429,32713360,33757587,34699512,35645218,36881924,37698017,38329681,39627468,39826317,40162743,40388569,40727581,40849869,40463356,40039150,38892254,37417828,36246960,34488850,32172859,30486916,28847683,27169815,25806433,25144070,24630537,23703951,22820999,21962297,19117163,14024424,10001985,6507933,4141300,2382005,438630,-1630722,-3945804,-5786924,-9096330,-7728429,-9803447,-17049917,-19544786,-22051064,-24384447,-26976164,-30028294,-33158558,-35445316,-38131985,-39969364,-42136658,-43283524,-44843800,-48549461,-50795799,-52985085,-54953876,-56311295,-57701267,-58153778,-58255741,-59216366,-58517727,-57067356,-56460022,-55508163,-54058952,-52263824,-50252605,-51158638,-51341991,-47102718,-45272812,-44435513,-43524342,-42516724,-39672245,-36255154,-34998322,-31812836,-31425213,-27110113,-30100643,-29250200,-22081083,-19395782,-17510941,-10749285,-13363314,-14112244,-12216009,-11790222,-12079945,-13978892,-12964814,-12758101,-19084013,-24504801,-24352793,-24654127,-25333078,-25100441,-25200485,-25776159,-25718937,-22818708,-19637733,-19626673,-18489197,-16414669,-12006443,-11001508,-9562959,-9193358,-6774127,-5457905,-3820072,-2756602,-2901958,-3515113,-3027975,-1704084,-2404349,-2485372,-2189827,-1733883,-1542143,-2160689,-2358970,-2431021,-1983719,-139522,2405075,5393771,4013349,3910617,5005813,7246534,9082424,11860880,14400027,13998511,14444905,15556089,18024012,16895132,16253839,15477369,14898501},
{-30149969,-28511200,-23675030,-17874125,-13710510,-11278587,-6512046,-3447332,239668,4042761,4413083,5222674,6637403,9202600,14036937,13251262,13704683,20002388,22874706,25627439,30238373,32045788,30973473,30627110,30338158,29173813,29948353,30705082,31240654,32176334,32844799,33698494,34517319,35513420,36275707,37292400,37697216,37829464,38932980,39234264,39333828,39801170,39732433,39350281,38518723,37366280,35826771,34713852,33103931,31154478,29503735,27678522,26376268,25207329,23994738,23381042,22322304,21398771,20544657,17714211,15475617,10850886,6797915,3877765,2090147,433524,-1640536,-3810400,-5368166,-8320685,-12356736,-12846772,-16087816,-17039722,-20831148,-27011477,-29073051,-31500532,-34625835,-37122139,-38988178,-40832584,-42231785,-45074886,-48404709,-51101479,-53399414,-55300846,-57081146,-58729851,-60016487,-60782307,-61147686,-61168530,-60533691,-59348652,-58518631,-56708862,-55853004,-54395718,-54324795,-53936192,-53605545,-52279087,-50884411,-49881802,-47121819,-43771194,-43421444,-41593575,-37950462,-34303257,-30021521,-27567089,-36071152,-30397665,-23626865,-22173615,-19101418,-16643747,-16277088,-13827848,-12422674,-12204576,-13342614,-15906769,-15452909,-16007868,-26191704,-27323250,-26677834,-26736216,-27197161,-26731159,-27394396,-27762287,-27178062,-24869333,-21499094,-18109438,-16905626,-15389590,-13214916,-11689764,-9232176,-8182426,-7244658,-6187055,-4782020,-3104568,-2836105,-2862816,-2898043,-1461765,-1347312,-1555337,-2647207,-2346767,-2081922,-2700895,-2356725,-3651514,-2357296,-1200479,1336185,4439747,4071065,3633820,4458984,6670648,8687844,11182112,14143269,13718436,14335865,15333753,17835785,16877808,16134546,15444494,14898501},
{-30149969,-28506424,-23729870,-17943310,-13682524,-11178218,-6324693,-3360936,157284,4084255,4729599,5421351,6487835,8515611,13216481,12671552,13043468,19429060,22337732,25399315,30105312,31265062,30445381,30576658,29132326,28009392,29351625,30398394,30957699,32030163,32788750,33478474,34130550,35165924,35770428,36648232,37807056,36879250,37765614,38494820,38180119,38806671,38618420,37814663,36874969,35746651,34155632,33073975,31857456,29994162,28443619,26901670,25624044,24721704,23773926,22395008,21111204,20051346,18955181,18165192,15049254,11212663,7269391,3960805,1887195,484986,-1662587,-4136895,-5200329,-7584246,-10318249,-12520645,-16687689,-17314100,-18464422,-22691559,-29800520,-33867622,-36065392,-38063595,-37329765,-39947899,-44334454,-48330051,-51106831,-53665001,-55789867,-58214771,-60177361,-61767269,-62594189,-63262604,-63328053,-63183952,-62659294,-61713036,-60082485,-59133080,-58725296,-57944225,-58203880,-57879730,-56756104,-56574966,-54363735,-53085175,-53100327,-49523335,-47251884,-43410892,-42447063,-39962250,-36262184,-37945461,-37753174,-31667248,-25355776,-23534481,-19403898,-17267942,-15270629,-15073984,-14490058,-14309260,-16742119,-16021627,-17820028,-22966549,-28886114,-29467972,-28563770,-28519506,-27942909,-27891325,-29037998,-29047733,-28630957,-26187237,-23647614,-21454647,-19165476,-18133968,-16065376,-14183876,-11366960,-9522537,-7432323,-6754559,-4725000,-4570985,-3887861,-3106078,-2554180,-2499415,-1190800,-123583,-4478091,-3025782,-2698904,-3686440,-3180774,-4707822,-3053536,-1981427,-21309,2947419,4289147,3455919,4032829,6070539,8086589,11235891,13848244,13157125,14232343,15173169,17636103,16855913,16007545,15408725,14898501},
{-30149969,-28502953,-23789574,-18024548,-13673846,-11115225,-6185405,-3291215,63845,4083397,5041979,5664827,6464658,7893563,12220170,12131459,12457037,18514416,21609474,25216036,29735920,30258211,29821026,29909380,27664532,27159025,28723562,29963123,30938452,31538851,32353279,33206062,33982800,34701248,35438091,36218639,37010849,37039673,36893375,38110821,37559513,37956787,37753784,36657135,35503864,34183552,32871174,31862232,30648705,29176413,27753763,26111017,25086023,24284803,23691330,22370163,20566669,19011120,16690805,15386706,14285373,10492533,7855812,4648531,1492491,353609,-1564342,-3791258,-5697497,-7597074,-10816279,-14288335,-16715487,-19693993,-20900215,-23106190,-26358345,-31058846,-34166042,-35857861,-38271164,-43768604,-47033089,-50772781,-53685497,-56051960,-58571644,-61157776,-63062988,-64192398,-65559784,-65658691,-65933731,-65569489,-65004898,-63966030,-62741749,-62228344,-62273392,-61968815,-62097130,-61438438,-60247295,-58620674,-57536266,-56658100,-55933407,-54916878,-53442661,-50406033,-47385300,-43067745,-40920460,-39887596,-39183762,-31739923,-27376036,-24377361,-20821064,-17224195,-19550983,-19226103,-17892338,-18808296,-19719000,-21297600,-22683064,-28271502,-31040747,-31438707,-30461395,-30393120,-29257084,-29421423,-30318727,-30078608,-29908722,-28269541,-26422720,-24148689,-22269224,-20298042,-17575871,-16384510,-13802844,-12062352,-10145061,-9567810,-8315102,-8419271,-7963090,-6167735,-6002285,-5485809,-3618856,-1200143,-5468040,-4524355,-3487703,-4840182,-4630090,-5664209,-4148103,-2907569,-1279869,1953220,4375226,3257708,3675080,5412095,7361615,10869633,13615247,12576499,14127861,15090067,17471607,16805473,15875576,15370938,14898501},
{-30149969,-28500713,-23853933,-18117773,-13691009,-11093533,-6099739,-3216480,-23882,4046387,5312297,5936152,6592484,7424043,11159036,11574423,11881546,17270294,20739004,25097425,29238487,29198841,29152151,28672537,26713865,26827370,28482283,29605381,30255369,31080912,31634373,32779251,33816223,34542389,35134892,35571957,36292351,36131226,36984619,37380447,37081501,38146854,36922585,35749981,34551079,33144550,32210564,31061028,29671179,28402491,27218779,25797884,24906996,24379196,23773878,22416569,20123379,18290239,16311527,14388219,13055744,10978539,8699632,5153846,1991522,384489,-1567954,-3620045,-6099515,-8540226,-11960583,-15030399,-17118641,-20357191,-24346596,-27201101,-30470539,-33786148,-36128922,-37457718,-40636112,-45990303,-49554867,-53179359,-55984890,-58834377,-61215122,-63705940,-65770279,-67136055,-67906570,-68059891,-68228737,-68195427,-67376068,-66247383,-66305595,-66355034,-66135757,-66597046,-65895523,-64434700,-62920055,-61438492,-59636650,-57939026,-56315468,-54575909,-52548706,-50175014,-49292812,-47405197,-40260994,-43624382,-42051811,-33159210,-29459120,-27303270,-24451267,-22148636,-22484461,-21525229,-20232201,-19328089,-19704746,-21814344,-26733757,-30689482,-33025146,-33269249,-32648560,-31839729,-31612385,-31440187,-32309452,-31566099,-30713293,-29923120,-28443960,-26494078,-24283691,-22677246,-20671829,-18534079,-16619120,-13974113,-13118005,-12210116,-11294230,-10515873,-10472289,-9199193,-8768702,-7611964,-5418846,-2864024,-5862204,-5850827,-4631518,-5031319,-5875810,-6534560,-5255399,-3537336,-1990267,794395,4555724,3023940,3256719,4707371,6791060,10599341,13445509,12505237,14037962,15038718,17270008,16717236,15741155,15332083,14898501},
{-30149969,-28499664,-23922728,-18225382,-13734043,-11113836,-6073370,-3143358,-72878,3986853,5529971,6153927,6835749,7191144,10082872,10976406,11261959,15807569,19821270,24976322,28637035,28309650,28482977,27965042,25890255,27054813,28163761,29430023,29931606,30682819,31372915,32219250,33384533,34506184,34845036,35051735,35467319,35453487,36242409,36957317,36389458,38349712,36671825,35399677,33769238,32238537,31506203,30341927,29282185,28178776,26977716,25604040,24709137,24297010,23805380,22166040,20251347,17953232,15632914,13366787,11713298,10980700,8187764,5669590,2680957,4329,-1840508,-3841627,-6562679,-8674076,-11525156,-15343861,-18266552,-21828878,-25514713,-28987406,-32040062,-35639587,-39311554,-42222820,-45531864,-49024315,-52413372,-55808414,-58628544,-61369682,-63964764,-66240097,-68392662,-69899284,-70743813,-70506874,-70798836,-70618103,-70069244,-69975990,-70264618,-70323868,-70442856,-70226112,-69390617,-67814491,-66501190,-64946571,-62847034,-60745094,-58556866,-56345047,-53879948,-51510880,-49584911,-47556835,-44018257,-45825260,-44998890,-35191517,-30807617,-30163485,-29852285,-24591883,-24389154,-23170168,-22015068,-19846735,-17981876,-22553104,-28253496,-32732864,-34940655,-34285950,-33900982,-33308846,-33141296,-32523800,-33652214,-33345589,-32775658,-31894709,-30765347,-28749327,-26051710,-24527977,-22967968,-20244823,-17983433,-16670898,-15598749,-14485164,-13317622,-12361000,-11422602,-10453717,-10232566,-9800211,-7214581,-5261024,-4583145,-6427735,-5836662,-5311905,-6886772,-7280783,-6003087,-4059865,-2587924,-375220,3855851,2756778,2806935,3917467,6256964,10453504,13320974,12855933,13942639,14978916,17058479,16596411,15605670,15292917,14898501},
{-30149969,-28499828,-23996143,-18347404,-13800691,-11177266,-6102898,-3067538,-75861,3916066,5673269,6309661,7173203,7205903,9110073,10283258,10603898,14338348,18866255,24626888,27889935,27634897,27828392,27277275,25603704,27434586,27554867,28698652,29319139,30199665,30737566,31526423,33327332,34660049,34992271,34821175,34721989,35089317,36110691,36255047,39171932,37369453,35569351,34238640,32670254,31881281,30996044,29928711,29012798,27797514,26693853,25677877,24661833,24308481,23357874,21741829,19665846,17305187,15252787,13140852,10838317,9474435,8084344,5528871,2057738,-58243,-2337391,-4337784,-6858179,-9057182,-12076611,-14827099,-19016346,-23010689,-26206568,-29806282,-33727890,-37154293,-41111382,-44626152,-48624912,-51859028,-55030327,-58324192,-61325089,-63866875,-66578598,-68534561,-70375206,-72413162,-72991341,-73124016,-73610657,-73132736,-73022614,-74132202,-74165146,-74251305,-74314453,-73641701,-72389992,-71112473,-69621780,-68078644,-66185257,-63925404,-61565815,-59079178,-55926056,-53929123,-51712986,-49612320,-44568893,-44787125,-47369682,-38322491,-31145893,-31260876,-30526690,-26000862,-25492798,-25482416,-22993000,-19073008,-18498980,-22336830,-28700090,-34891903,-36736378,-35764320,-35404560,-34720406,-35004684,-34605984,-35730732,-34959679,-34508568,-33673080,-32381729,-30484097,-28242241,-26098200,-24444647,-22466156,-19951450,-18067234,-17528723,-16504568,-15089091,-14336661,-13201282,-11479687,-10763121,-10440315,-9746642,-6973652,-3862947,-5972547,-6491646,-6256966,-7539115,-7728930,-6448697,-4655025,-3011317,-1231682,3177457,2600832,2258291,3044401,5718828,10164618,13169296,13385806,13885191,14865056,16875290,16479923,15469501,15253853,14898501},
{-30149969,-28501289,-24074516,-18483271,-13895240,-11287354,-6178196,-2976218,-15265,3861313,5751274,6357969,7548049,7426913,8303524,9530431,9979395,12989374,17794189,23739027,26871820,27033016,27129591,26136276,25164009,26953476,27039053,28050770,28665974,30148777,30728201,31384951,31398811,35047260,35763676,34605148,34407810,35985252,35714870,36389450,41116436,37817245,36158272,34753380,32867538,31869505,30572979,29427170,28384480,27180048,26006721,25464134,24341454,23578539,22621233,21017822,18792738,16551592,14679564,12589515,10479030,8838514,6566054,5563006,1573463,-253241,-2695381,-5085281,-7457212,-9755187,-12435893,-15486545,-19783905,-23918713,-26919344,-30895176,-34491421,-38289745,-42319893,-46830872,-50139893,-54058662,-57535336,-60905903,-63936871,-66430527,-68607498,-70731087,-72554672,-73985764,-75067932,-75835716,-75915726,-76025375,-76544388,-77318001,-77798607,-78160316,-78350006,-77378395,-75874962,-74445549,-72889229,-71013092,-69137627,-66859291,-64462608,-61548241,-58489571,-56439354,-54612442,-54624619,-48547775,-47027088,-47919117,-42106632,-34068291,-30568460,-30988911,-28598824,-27650019,-25611744,-24821844,-21255117,-20001698,-21669785,-28796352,-36983845,-37949753,-37224953,-36937946,-36358524,-35986496,-37414272,-37198566,-36500431,-36066784,-34463390,-32665520,-30793385,-29136391,-26814079,-24835117,-23655132,-21936047,-19871187,-18476969,-17889761,-16357937,-15620605,-14841615,-13213089,-11404935,-10962447,-10926865,-9183301,-5487067,-4776627,-6439348,-6805721,-7806665,-7738540,-6743260,-5266712,-3388821,-1982319,2245040,2518058,1665826,2231428,5068414,9791909,12929730,13952620,13850449,14736964,16724358,16415260,15334180,15214930,14898501},
{-30149969,-28504175,-24157774,-18634277,-14015747,-11431086,-6307469,-2870847,101880,3820214,5787375,6342981,7835464,7788357,7642725,8716865,9392103,11879924,16566868,22224806,25365953,26331106,26407377,25654305,24821621,25751022,26732903,27485727,28269182,29972321,30900921,31614794,31298578,35197517,35522106,34158470,34562794,34619236,35375523,36857365,40020290,38100136,38897736,37028164,33393322,31689508,30268410,29517038,28292170,27145166,25756563,24866667,23910679,22749973,21584381,19994555,17778942,15559703,14018389,11902054,10079247,8062243,7419540,4942902,1209333,-1013678,-3496457,-6128379,-8226326,-10907499,-13072051,-16485653,-20399231,-24398191,-28047453,-31660851,-35897530,-39199261,-43524380,-47302795,-52340984,-55734734,-59473114,-62450623,-65820953,-68299644,-70337189,-72866463,-74707054,-76692711,-77373512,-78151054,-78706261,-78906975,-80164993,-80831734,-81622452,-81954727,-81469948,-80428101,-79153839,-77641983,-76091484,-74153458,-71828621,-69813171,-67166428,-64115341,-62045620,-58409035,-55776333,-55366753,-52347214,-47666931,-45753231,-43104843,-39413475,-34047810,-30653282,-28885130,-28786949,-25854788,-25021624,-22920137,-21519156,-21775877,-28938625,-38852024,-37331379,-38042046,-37746876,-37709400,-39173512,-39529705,-38690708,-37819897,-37284416,-34982319,-32434715,-30879980,-29031805,-26756092,-24883114,-23864344,-23301933,-21622942,-20513678,-19234724,-18233974,-16695337,-16173103,-15394073,-12990208,-11292832,-11425774,-10006817,-7499195,-4268625,-5243217,-7283283,-8136435,-7867719,-6961713,-5686723,-3795128,-2696876,1065119,2242183,1003267,1592795,4417552,8396402,12659184,14450540,13796598,14615752,16626888,16425932,15204522,15175927,14898501},
{-30149969,-28508617,-24245369,-18800301,-14166273,-11615367,-6478923,-2770513,276526,3814087,5802091,6244196,7983687,8119913,7133903,7886106,8840172,11072471,15153109,20125578,23396021,25317566,25694004,24386656,23832886,25555761,26551380,26952496,28056383,29705505,31002405,32188694,31383383,35051567,34474464,34107075,34871307,34740192,35091507,36465363,36919018,38999378,39844685,37936451,34316856,31347824,29907097,29039333,28166519,26957443,25647495,24518780,23153553,21847301,20563929,18754305,16761932,14914865,13126171,11215352,9339221,7245188,5866570,2894084,1599236,-1824997,-4090961,-6658477,-9224561,-11734756,-14665085,-18252422,-21903830,-25994242,-29203051,-33110207,-37463478,-41461712,-45599007,-49537342,-53257030,-57429516,-61237141,-64532600,-67250061,-70292877,-72756821,-74875999,-76943588,-77782738,-79685562,-80403351,-81175224,-82229843,-83471863,-84524231,-84980766,-85288536,-84637978,-83789963,-82636688,-80803490,-79255325,-77312683,-74761414,-72558769,-70250648,-68729744,-65645409,-60140835,-57498795,-56645905,-53049198,-48030197,-46267723,-44014381,-42289871,-39686588,-35627304,-32649006,-28481871,-24927166,-24628340,-22355042,-22624390,-21775679,-30267769,-41574738,-38597744,-36435246,-38333611,-40489933,-41631447,-41754749,-39188274,-38381760,-38159538,-35823326,-33642376,-31860779,-30084028,-28139498,-25796234,-24440945,-24326447,-22480350,-21722549,-21107908,-20048658,-18220558,-17384537,-16787189,-15308495,-12620197,-11702186,-10896010,-9099416,-6114554,-6161643,-8266161,-8757018,-8176495,-7263798,-6037241,-4224421,-3250316,-69552,1842787,313478,1169119,3774620,7734544,12489866,14833920,13727704,14501199,16525866,16504738,15087542,15136558,14898501},
{-30149969,-28514706,-24336798,-18978935,-14340926,-11824808,-6697202,-2690427,495132,3844558,5831774,6160457,7948994,8260601,6697936,7151330,8476958,10512207,13657066,17750374,21162132,23961809,25030994,23149544,23628504,25720984,26534176,26564127,27835482,29224533,30736582,31685308,30871914,34876678,33808662,34311592,34897179,34708099,34852879,36241028,39221909,41059799,40263927,37764191,34517021,31248468,29815224,28626339,27596281,26505312,25382509,23788736,22328373,20837334,19104631,17577898,15694103,13908182,12170304,10369290,8465809,6567040,4282252,2993598,715705,-2696200,-5167322,-7621503,-10338194,-13002061,-16478840,-20025650,-23684092,-27501139,-31386618,-35517956,-39763817,-43747330,-48145763,-51805611,-55946384,-59802677,-62876835,-66194572,-69253288,-71606651,-74641960,-76689934,-79226776,-80997604,-82997536,-84604919,-85270859,-85853699,-86725098,-87498985,-88019524,-88677620,-87754433,-86604843,-85452606,-83950386,-82124367,-80081856,-77782631,-76063255,-73956604,-70931854,-66162193,-63011299,-61133553,-58257786,-53236172,-50057438,-46964535,-45389858,-44365330,-43885864,-41897053,-41442074,-34434128,-27385880,-25580006,-24717360,-24498976,-25240625,-31802855,-44411320,-42450642,-32654427,-40233368,-42717098,-43569530,-42868149,-37457302,-39596333,-38384041,-37021690,-34180008,-32052773,-30737013,-28427654,-26874983,-25903791,-25693970,-23495087,-22848909,-22292360,-21635735,-19660149,-18376423,-18395195,-16415491,-14031690,-12852256,-12089717,-10790456,-8254179,-7814776,-8871662,-9262033,-8472510,-7485617,-6395899,-4604467,-3754866,-1374270,972841,-328414,875129,3245334,7405633,12437778,15080643,13632029,14383289,16415659,16598391,14988325,15096643,14898501},
{-30149969,-28522476,-24432001,-19169750,-14540695,-12059712,-6947739,-2626099,733912,3902728,5913948,6146767,7693297,8058971,6235213,6612816,8339429,10072241,12301509,15546353,19058008,22337414,24348166,24476313,23903721,25249086,26075895,26149490,27475496,28638618,30002647,31337442,30591801,34717674,33531292,34375210,34725052,34447887,34430996,35051857,40626606,41665558,40042297,37066528,33559132,31116171,29489058,28013348,27060865,25854300,24343254,22805143,21298931,19581142,17988110,16409447,14642872,12993688,11146868,9284338,7451679,5442950,3284338,1123592,-1706516,-3432586,-6176134,-8920998,-11670422,-14636052,-18418058,-21970427,-26066826,-30213076,-33675568,-38091507,-42336620,-46200554,-50345016,-54654202,-58611771,-62395626,-66180748,-68872627,-72112701,-74564896,-77350494,-80050713,-82576515,-84428925,-86472908,-87978905,-88784409,-90016319,-90455017,-90658745,-91376198,-91178131,-90585548,-89692307,-88355431,-86642097,-84931656,-82823860,-80638222,-79130913,-75301910,-71836823,-68839645,-67221611,-62426250,-56402462,-53597973,-50991005,-48447464,-47186268,-46115784,-43821003,-42318310,-38894325,-32793533,-30338919,-29348824,-27043999,-27967289,-29094839,-36974972,-48161182,-44059376,-34210995,-41557781,-44366905,-43240044,-42571915,-39473602,-40746655,-40918449,-38374367,-35836933,-33527241,-31955790,-29590473,-27791933,-27180323,-26935900,-24641365,-23934912,-23576385,-22664368,-20905727,-19719805,-19222523,-17342329,-15058420,-13529722,-13024220,-12139806,-10316246,-9458976,-9607332,-9585640,-8880987,-7556667,-6555811,-4909515,-4113066,-2338518,-420004,-814070,641553,2806590,7146580,12389435,15163082,13506496,14239808,16320303,16615984,14907109,15056251,14898501},
{-30149969,-28531889,-24531054,-19374950,-14766491,-12313065,-7238935,-2603673,963283,3979343,6067963,6227508,7227812,7463513,5723881,6288401,8443771,10196700,11367932,14040961,17492373,20601383,23447996,25433968,23107719,24223547,25365395,25698179,27174446,28214407,29300455,29829876,30388109,33736454,33530235,34650051,34518963,34288921,34347317,37725086,39749680,39965618,38806946,35730885,33034531,31013760,28815115,27294100,26163731,24863205,23330507,21601656,20070417,18213007,16779243,15294269,13746113,11867669,9961088,8145024,6127614,4260977,2257661,105436,-1907887,-4944944,-7435380,-10612732,-13650935,-16989286,-20654158,-24514368,-28933514,-32954807,-36870327,-40631924,-44642456,-48814518,-52591297,-56424431,-60829605,-64108093,-68768867,-72435020,-75677826,-78183067,-80928497,-83515335,-85844337,-87734100,-89471840,-91182526,-92362442,-92406281,-93243553,-93929871,-93862923,-93308701,-93306351,-92299728,-91073441,-89585320,-87751480,-85603462,-83167923,-80580605,-77846367,-74582458,-71889000,-65092186,-60640896,-56241356,-52918213,-51689060,-48011810,-46339779,-46647549,-46444542,-45608814,-45286156,-37662308,-35884422,-38011276,-35986889,-34758636,-33444237,-29993729,-41032234,-41291237,-36382515,-40920551,-41255032,-38908470,-39410583,-41465546,-42640808,-41422981,-39086269,-37926350,-35097492,-33055386,-30796021,-28897964,-27635248,-27272949,-26095219,-24930527,-24992252,-23901768,-22216280,-21226364,-19998903,-18632198,-16437170,-14388304,-13638061,-13500965,-11900038,-10992171,-10625125,-9786613,-9293787,-7754891,-6510739,-5179813,-4586102,-3041728,-1671222,-1219105,450450,2483733,6861077,12253258,15087254,13339874,14063418,16171227,16518280,14840813,15015707,14898501},
{-30149969,-28542849,-24633606,-19594137,-15005299,-12583174,-7564402,-2641177,1151344,4057395,6297208,6413982,6555766,6473272,5196926,6238821,8784172,10448048,11001017,13509657,16675465,19016874,22041660,25648914,22276134,22855997,24570490,25200554,26457489,27750103,28562876,29431288,30018133,34108032,33389015,34688519,34616890,34767887,36905033,38110012,37327850,37561306,37643177,35008839,32203979,30431412,28549181,26693047,25080929,23495733,22037075,20237532,18759996,17115206,15687031,14187757,12343283,10702247,8885489,7035912,5002828,3103140,947872,-1118401,-3384360,-6616077,-9505341,-12532211,-15796218,-19272003,-23254162,-27181231,-30910080,-35115120,-39536438,-43351410,-47328716,-51235752,-54786312,-58282120,-62470848,-65698044,-69146378,-72241180,-77223297,-81288269,-83983498,-86511375,-89005096,-90600342,-92075462,-94016411,-95093727,-95118141,-95861877,-96036301,-96191452,-95505722,-95405167,-94378075,-93033173,-90777267,-88920670,-86710243,-84267899,-82100334,-79927055,-77310715,-69916656,-66749413,-63555481,-58094360,-55710766,-52769615,-49145348,-46420334,-44182835,-45751106,-48075512,-50925335,-49714668,-48427364,-44269093,-44838520,-42137276,-35939182,-28399591,-33498077,-32054356,-35117702,-41336742,-44821800,-35093498,-41104847,-42678223,-43596603,-41860443,-40938118,-39508362,-35992565,-33618084,-31875898,-30010029,-28276884,-28221222,-27279053,-26256433,-26308287,-24863760,-23553968,-22846954,-21182972,-19803476,-17811836,-15619033,-14770739,-14357323,-13039723,-12609262,-11277084,-10046381,-9657977,-7892662,-6723238,-5375152,-5119671,-3658832,-2334840,-1509613,432982,2312602,6569826,12003617,14859726,13139252,13908103,15967377,16374430,14786963,14975526,14898501},
{-30149969,-28555216,-24738968,-19823896,-15265793,-12856514,-7925088,-2753999,1281549,4117238,6589173,6711580,5809150,5228559,4707015,6476983,9355841,10899994,11168966,13880198,16517036,17737474,20741983,24986040,21741817,21752556,23595556,24807838,25749317,26800741,27658802,29074522,29578568,33644512,33317173,34054115,35439560,36545422,37893787,37850048,36715446,36059727,35480049,33573532,31347702,29499811,27725960,25371099,23895323,22340084,20690924,19081129,17363754,15888387,14599748,13043390,11163484,9288789,7809210,5710080,3855347,1771040,-196601,-2275791,-4863859,-8035602,-11344077,-14586756,-17898300,-21601217,-25377575,-29407816,-33304951,-37954468,-42229179,-46285336,-50460785,-54096622,-58075661,-61407204,-64797729,-68232422,-71619255,-74212395,-75647621,-80994850,-86126320,-88799568,-91177330,-93629715,-95003250,-95800926,-96799500,-97365097,-97296539,-97450562,-97202110,-96882462,-96335556,-95523506,-93755180,-91618843,-89821022,-87556969,-86332802,-83815598,-80668587,-75448090,-70815041,-68387947,-64714211,-60372066,-56994179,-54751408,-50688168,-48160126,-45787796,-44765110,-47157093,-48708569,-48547932,-47373825,-44095970,-48092907,-47689220,-35538300,-29131067,-29520210,-29189463,-30575094,-39255093,-48153782,-36160049,-41259605,-44209713,-43878162,-42940346,-42668644,-40529083,-37187160,-34170094,-33191906,-31064087,-30075657,-29540892,-28429203,-28055868,-27612305,-25721535,-25174862,-23734034,-22478554,-21130848,-19140030,-16675882,-15966350,-15610470,-14568497,-13779037,-11710286,-10257174,-9962354,-8167795,-7201869,-5603174,-5548075,-4250219,-2637419,-1646549,492773,2319648,6320975,11695113,14507936,12914794,13801537,15743872,16277878,14745069,14936265,14898501},
{-30149969,-28568844,-24846807,-20063633,-15545319,-13140151,-8311078,-2946189,1330573,4121781,6894415,7094457,5048477,3873078,4327108,6942260,10050098,11517762,11861670,14719011,16726727,16802370,19808949,23172056,20777693,20900734,22760723,24432268,25130339,26361181,27286402,29278744,29953136,32266426,32770119,33959297,35130432,39498665,37970634,37513348,36471531,34547665,33644318,31971884,30154846,28506430,26881714,24837486,23144867,21510910,19619762,17827513,16309235,14854881,13350071,11796742,10190320,8448729,6382932,4542335,2727745,441975,-1514470,-3808361,-6988155,-9801631,-12862628,-16877764,-19827883,-23279739,-27361376,-31217621,-35668987,-39996056,-44691090,-49076836,-52718758,-56550888,-60634594,-65029961,-68375725,-72038513,-75187843,-77811424,-80571297,-83315048,-86593964,-89836029,-91669617,-93262627,-94800827,-95776413,-96802429,-95412346,-95762054,-96090233,-96628983,-96321152,-97022171,-96031670,-94887222,-93315186,-91861244,-89902084,-86927589,-82950516,-79638214,-77260117,-74144363,-68930946,-66355858,-61090118,-59460533,-56322628,-51649994,-48411499,-47357410,-46412197,-47021065,-47541901,-46695625,-45254421,-44154171,-48557030,-45044247,-32633854,-25275331,-29183699,-28405167,-29978930,-37063526,-43784954,-37542797,-42549366,-44365658,-44899822,-44296238,-43134769,-40756180,-38449234,-34894600,-34230362,-32933151,-31778063,-31168634,-30051891,-29543800,-28594416,-26967705,-26499331,-24710443,-23618845,-22061407,-19806009,-17882442,-17133049,-16831102,-14994655,-14078095,-12060382,-10409769,-10056375,-8053621,-7635599,-6023213,-5960638,-4834046,-2835228,-1665137,642338,2498494,6245193,11317465,14072354,12700555,13713948,15506359,16239735,14713847,14898384,14898501},
{-30149969,-28583601,-24957500,-20314093,-15834151,-13418807,-8729361,-3229638,1273970,4053700,7157828,7487208,4321467,2619452,4138995,7527425,10756422,12171834,12808825,15702680,16927851,16004667,18724583,20917637,19699812,20512035,22255573,24116821,24720474,26042978,27433521,30107090,30220655,31309399,32288414,33973282,34857197,39148903,38033386,36814762,35451382,33709259,31949465,31039091,29163244,27594923,25989960,24210447,22040848,20435190,18572264,16737360,15324890,13883509,12223150,10639514,8934299,7273247,5450089,3434792,1345207,-647005,-3031277,-5587692,-8688974,-11909096,-14910495,-18461193,-22213352,-25745846,-29580280,-33705742,-38218071,-42107319,-46412689,-50709351,-54463680,-58564896,-62602638,-66938911,-70889687,-74839386,-78458351,-81405113,-85176842,-88750771,-90687935,-91289696,-92412514,-94733887,-96397179,-97163834,-98365921,-99123543,-99358360,-99701889,-99859993,-99645149,-99151260,-98283783,-96795059,-95106453,-92689720,-88769150,-86318542,-84208885,-80237473,-77526993,-73566200,-69860565,-65789360,-62142918,-58961006,-56367596,-52331081,-48095715,-47837940,-48030399,-46906487,-47474182,-45949764,-44518463,-46155483,-46623768,-36330879,-28250286,-28877142,-30752419,-30712536,-30820526,-35006893,-37304737,-36535702,-43622231,-44308956,-46180702,-45015129,-44006653,-42096699,-39563686,-36479790,-35947266,-34312637,-33209343,-32633686,-31664204,-30442974,-29133553,-28278009,-27410173,-25717527,-23744104,-22338514,-20682087,-19215248,-17846167,-17353903,-15514874,-13847113,-12129334,-10351000,-9907057,-7931507,-7368178,-6664047,-6327971,-5535524,-2925418,-1533043,840683,2822978,6375019,10898108,13576261,12495582,13619068,15232490,16200222,14687974,14862129,14898501},
{-30149969,-28599394,-25071444,-20572781,-16139145,-13700632,-9155323,-3598679,1100757,3915435,7322763,7825119,3690935,1678471,4165001,8068086,11314845,12796703,13793652,16489241,17034199,15633308,17454899,19378008,18618563,20220905,22069317,23619799,24305197,25541454,27270002,30064167,30085981,31005638,31335747,33173523,35232082,36943840,36891972,35869453,32931778,32475338,31176155,30040182,28549122,26506824,25124973,23548073,21649721,19094492,17859251,16160515,14495960,13078748,11573225,9913266,7980593,6375309,4561596,2463249,258558,-2194810,-4992019,-7795116,-10774115,-13696479,-17027477,-20579149,-24071772,-27690201,-31584728,-35535141,-39594715,-43971210,-47643856,-51941406,-56153744,-60419178,-64339294,-68442276,-72531387,-76098549,-79951340,-83632584,-87213051,-89928101,-92292877,-94786781,-97043968,-99301659,-100416664,-100029457,-100222298,-101037651,-100972527,-100877525,-100755638,-100291756,-100013710,-99260910,-97321907,-93977264,-90858208,-90186348,-87049164,-83380661,-80445671,-76905975,-74337486,-69955032,-66516685,-62984035,-59329617,-56398708,-54074554,-51934048,-49388992,-47329330,-47342487,-47312881,-47092289,-47258896,-48447918,-41711205,-31396706,-25493818,-29862719,-32229156,-32986629,-36268139,-36135921,-36293205,-36833328,-42424496,-44193218,-47408985,-46788090,-45321106,-42879364,-39982742,-37904072,-37560242,-35708405,-34990685,-34090351,-33159100,-30885593,-29582483,-28949087,-28260197,-26253441,-24631092,-22911463,-21388062,-20535894,-18706766,-17545046,-15682456,-14241350,-12318321,-10478776,-9649637,-7904133,-7328415,-7061832,-6694674,-6145386,-3041579,-1407210,888060,3135215,6506135,10481494,13068374,12288998,13512812,14903373,16109016,14658747,14827499,14898501},
{-30149969,-28616198,-25188210,-20838667,-16453485,-13972485,-9604518,-4053027,812841,3702881,7335837,7983969,3210663,1140791,4391446,8471026,11562100,13201931,14598300,16962528,16994314,15797336,16839085,18301546,17815601,19708748,21713392,22736944,23307671,25573256,27371141,30051683,30452917,30533560,30377567,32584614,34312584,35313065,35814514,33619667,32388878,31625238,30165789,28653091,27583427,25875778,24114582,22598721,21019770,19162167,16973732,15746594,14121309,12317752,10841390,8830408,7158763,5340909,3403538,1233629,-1225230,-4129359,-7086098,-9835639,-12971028,-16020897,-19020926,-22685831,-26370308,-29939648,-33465786,-37106876,-40554005,-44959618,-49414734,-53200466,-57745201,-62091076,-66105927,-70023933,-73861176,-77662590,-81221161,-84968636,-88006935,-90995468,-93234337,-95886253,-97359261,-98991425,-100630463,-101514786,-102273148,-102924866,-102874100,-102077477,-101739578,-100835815,-99667267,-96148346,-94868080,-93699005,-88963242,-86709053,-85331886,-83151596,-80860291,-77914558,-74696449,-70941162,-66822517,-63245068,-60441219,-57204239,-54904736,-53994770,-53977383,-50712048,-49042679,-48976391,-48418751,-47590450,-45499199,-30291077,-21581036,-23830572,-26854458,-30281082,-34974045,-46932114,-41579498,-35770302,-36795322,-40995495,-45750175,-48508591,-48320488,-46276016,-43248547,-39755905,-38702930,-38867378,-37074337,-36644650,-35582970,-33811813,-32136982,-30422369,-29694025,-28879805,-27337261,-26294350,-23783146,-22109739,-21015629,-19378891,-17470238,-15760551,-14687386,-12583457,-10931566,-9381577,-8013748,-7842025,-7363878,-6949043,-6740309,-3098010,-1347798,986346,3249119,6449710,10133110,12553123,12077389,13398655,14574333,15960063,14618528,14794274,14898501},
{-30149969,-28634058,-25306835,-21113144,-16778252,-14248364,-10066988,-4589602,424980,3404027,7162867,7963712,2886427,1050929,4785171,8626122,11528094,13452686,15119300,17183935,16995924,16244511,16884241,18022024,16822487,18930832,20989952,21877409,22506241,24714916,27312353,29344166,29257856,29160971,29800451,31711166,32482407,33976803,33413994,31815159,31103727,30307877,28978327,27793467,26428818,25065660,23103333,21657604,20169590,18584574,17097960,14767869,13485192,12089622,10073355,7997192,5906623,4108575,2105516,-351448,-3012436,-5872341,-8901503,-12080384,-14961569,-18128263,-21462034,-24809540,-28210411,-31697906,-35406700,-38876614,-42270214,-45982780,-49965923,-54137520,-58797749,-63565903,-67497757,-71317406,-75090462,-78890831,-82233131,-85491089,-88322517,-91259758,-93956947,-97103836,-99181938,-100240715,-102005569,-102594849,-103533981,-104075790,-104096230,-103355560,-102316261,-100762619,-97144035,-96464882,-94068291,-93225105,-88797455,-85639915,-84550400,-84551872,-82910065,-79208160,-74368790,-71626450,-67373222,-63290089,-60259716,-57637280,-55049984,-54721771,-55659386,-54358383,-53296047,-51150509,-49160484,-40622837,-30089327,-19606195,-22676065,-23883757,-23847517,-30106544,-46229477,-50159790,-44513721,-34701000,-38407902,-39421562,-46266479,-49547329,-50443222,-47805969,-42907352,-39461666,-40001060,-39867378,-38494560,-37701935,-36530067,-34647114,-33110321,-31728413,-30146160,-29394527,-28299072,-27267113,-24929180,-22841343,-21214666,-19573275,-17700415,-15847569,-14469116,-12975859,-11127913,-9335724,-8375319,-8287443,-7757523,-7058104,-7113701,-3255317,-1418754,995345,3212394,6347905,9870621,12019108,11870389,13290419,14296035,15764542,14564925,14762098,14898501},
{-30149969,-28653084,-25427040,-21393518,-17111692,-14516319,-10533347,-5183413,-27591,3031276,6819777,7714399,2704198,1359562,5200134,8526579,11222228,13408164,15365864,17318348,17218649,16866480,17638737,18765114,15321574,18464663,20058971,20893694,21597122,24242405,26418423,28274744,28457346,28768015,28928915,29832127,30364578,32772594,30532103,30228035,29931786,29242588,27959085,26558838,25423883,23919374,22429016,20829786,19326019,17747910,16587822,15324270,13992201,11398378,9449320,7033060,4971048,2652165,429038,-2114267,-5026381,-8045940,-10920418,-13981154,-17163742,-19985901,-23249998,-26789124,-30350859,-33465454,-36872780,-40500996,-43597839,-47188816,-51191723,-55107162,-59390408,-63909874,-68065094,-71871819,-75771080,-79572067,-83084122,-85858925,-89038376,-91612091,-94322182,-97271568,-99926323,-101005745,-102549988,-103363647,-103533806,-103360817,-104169182,-104557045,-104591827,-103328636,-99110138,-97329140,-95942085,-95140877,-91745461,-86130783,-86173813,-86547363,-84158737,-78179008,-74635788,-71206779,-67941246,-63482845,-59135296,-59315338,-56541756,-56661777,-57256886,-57392094,-56679165,-53849792,-48164318,-31681938,-19811565,-19737734,-24365366,-24935732,-25943369,-34047836,-50854900,-50439915,-45139603,-36744858,-37461384,-40883564,-45696499,-49160194,-51197323,-47995880,-42573112,-40361301,-42033978,-40368202,-39537994,-38714222,-37728176,-35124722,-33676235,-32912338,-31092279,-30628096,-28527922,-26934893,-25193069,-22961611,-21061195,-19503740,-17230696,-15711990,-14787843,-13229870,-11550832,-9744193,-9141935,-8625170,-8106866,-7106126,-7336508,-3342230,-1606467,852243,3012239,6219121,9666015,11508312,11660239,13194819,14184208,15527385,14501204,14730578,14898501},
{-30149969,-28673428,-25549675,-21677214,-17448219,-14777762,-11000248,-5818610,-548893,2599135,6296346,7229987,2634937,1930883,5579160,8215948,10707354,13060298,15345309,17463388,17629810,17265234,17535336,18377811,15203412,17615135,18968203,19644287,21521358,23862164,25592342,27095829,27589439,27737904,26727280,27758190,27779613,30395424,29719257,29045818,28988323,28145111,26794735,25724686,24151840,22872650,21499651,19933895,18235680,16508015,14837135,12897587,12427166,10419011,8203202,5693558,3345995,777532,-1674666,-4464206,-7104465,-9916817,-13147081,-15705116,-19059586,-22346598,-25114157,-28370281,-31763996,-35340557,-38748222,-41936913,-45342854,-48972252,-52173275,-56108070,-59932518,-64076660,-68261490,-71942719,-76037209,-79760048,-83950974,-86357567,-89672867,-92950104,-94911209,-97410225,-100666985,-101629463,-102746910,-103278320,-103404953,-103897270,-106240944,-106515984,-104973663,-102460625,-100033577,-96666794,-95504417,-93435165,-91905624,-89432320,-88805504,-88306419,-83988029,-79539238,-74598831,-71438568,-68129562,-64355362,-59403469,-59307468,-57774582,-59096268,-59673206,-60979450,-60036201,-56771786,-41328510,-22693773,-21919371,-24313118,-26889097,-26734793,-26780315,-40654461,-52223934,-49367126,-48443943,-43942410,-37781433,-42997459,-47760891,-44514103,-50615238,-48027000,-43279793,-42297859,-43590515,-41509567,-40651138,-39322975,-38084740,-35750061,-34334396,-33502262,-32417145,-30914812,-29670742,-27650749,-25503830,-23268312,-21459723,-19273499,-17681944,-16367918,-14840415,-13542350,-12202515,-10597404,-10025556,-8866055,-8302774,-7107118,-7440802,-3604843,-1992392,678865,2631639,6096706,9449915,11054102,11443296,13124155,14298777,15261364,14433130,14699366,14898501},
{-30149969,-28695238,-25675438,-21966455,-17797445,-15037046,-11457632,-6463649,-1101668,2131650,5618978,6489292,2621296,2637375,5777099,7740136,10112490,12463488,15067101,17543289,17987408,17400434,17176548,17455090,15894446,16479622,17619322,18542995,21563463,23460798,25024120,26280767,26327782,26137922,24608383,24872368,25410734,29772177,28511301,28021456,27483265,26697392,25600269,24503920,22907412,21546476,20392914,18833860,17086349,15252918,13179020,11391362,9057550,8283658,6335147,3871897,1521449,-1034511,-3506797,-6316393,-9046107,-11714737,-14843354,-17932585,-20410339,-23447805,-26995647,-30113003,-33436493,-36890720,-40277500,-43694862,-46897831,-50323467,-53614403,-57152496,-60731426,-64041733,-67991570,-71762840,-75778481,-78854034,-83068726,-85385696,-89579491,-92750069,-93642624,-97594543,-100286560,-101125565,-102592140,-103162735,-103447449,-104089554,-105508865,-105681999,-99351006,-96609375,-96390022,-96479897,-97316383,-94133469,-93117897,-92064491,-90138077,-86949379,-83313210,-79561417,-74501732,-72412437,-68062180,-64545624,-60058666,-57929291,-58567310,-60141014,-61609489,-63583584,-62833237,-56177181,-36868237,-23766844,-24497705,-26279755,-27583139,-28601072,-31587597,-46963886,-52143990,-50011280,-54678841,-53450199,-37920151,-43712410,-50757164,-41361656,-50735371,-48316257,-44467037,-44156322,-44344688,-42977798,-40538055,-39734577,-38807659,-35996815,-34509609,-33629032,-32831150,-31817175,-30281816,-28636236,-26479084,-23932562,-21585182,-20228617,-18450516,-16731760,-15224034,-13816656,-12738480,-11131896,-10342934,-9151767,-8310450,-7056534,-7195781,-4153127,-2546958,455169,2303897,5899359,9214627,10704161,11226544,13083278,14473485,14995723,14364861,14668196,14898501},
{-30149969,-28718597,-25803446,-22259844,-18152033,-15299258,-11907072,-7116675,-1652765,1647701,4835741,5589411,2656314,3357594,5785637,7252023,9568488,11710092,14599406,17483974,18044519,17138300,16536137,16925890,15977860,15434415,16404539,17633926,21396626,22961472,25104908,25035458,25188570,23554701,22624912,23201630,23656647,26684088,27142542,26785086,25957073,25329264,24452385,23150995,21899733,20363941,19136362,17804173,16015413,13859456,11785948,9657010,7513710,5070809,4151799,2140386,-460233,-2686107,-5455415,-8233891,-10642337,-13988626,-16430656,-19278490,-22363968,-25206915,-28525284,-31861082,-35062260,-38487549,-41763184,-45161816,-48525349,-51704155,-54750481,-58116234,-61509659,-64701042,-68382935,-71399605,-74978325,-77914803,-81355751,-84003296,-88430656,-91504860,-93954163,-95672272,-98106888,-99988487,-101565163,-102372719,-103069679,-103550911,-104709839,-104353973,-97738625,-92210846,-94481636,-95137924,-99076744,-99510704,-96354393,-93635315,-91396858,-87922661,-80778687,-76737953,-74003899,-69493462,-66455353,-64403427,-60351334,-58407799,-59608734,-60339222,-62810902,-65907539,-63423450,-48410942,-28990444,-25015030,-26961733,-27587027,-28590240,-28708090,-32320602,-49021702,-52565845,-52140823,-58701393,-59089939,-44847870,-46839043,-51828171,-45624210,-49489437,-48847393,-45774708,-44871914,-45099033,-42807148,-40912251,-40048164,-38725697,-35486050,-34869183,-34041145,-33419952,-32208584,-30717293,-29310425,-27098104,-23969501,-22154148,-21038748,-19093163,-16807112,-15518190,-13952970,-13390838,-11620913,-10419230,-9189201,-8193111,-6919701,-6745991,-4732014,-3079430,208460,1922389,5816249,9014538,10438697,11023881,13058275,14611918,14755012,14296620,14636876,14898501},
{-30149969,-28743483,-25931782,-22552925,-18512293,-15561826,-12336780,-7749314,-2212587,1165387,3997003,4658667,2687472,3937507,5632794,6834875,9107106,10887602,13971448,17202221,17598059,16515808,15845424,16142883,15652027,14742072,15513137,17546061,19988934,22428265,24078665,24746119,23640629,20733656,20583176,21307486,23676840,24380285,25234570,25260323,24497377,23931791,23232368,21917877,20579292,19184610,17574860,16604773,14827264,12683174,10094431,8062176,5775992,3806575,1580854,-367199,-2240961,-4773482,-6921341,-9928576,-12547269,-15273472,-18528889,-21158497,-23878496,-26892899,-29757429,-33351421,-36714859,-40301891,-43811924,-47328590,-50201641,-53882160,-56531277,-58834492,-61869881,-65196823,-68492958,-71808754,-74834503,-76773506,-80746666,-82065834,-86522522,-88289291,-90633507,-92620064,-94182419,-97126602,-98587013,-100367691,-101660530,-101651741,-102620842,-102593216,-100536469,-94861526,-95686676,-97444885,-97242897,-96386986,-94513954,-92215607,-90552711,-88646942,-81737785,-75261200,-70243279,-67599548,-65042419,-63857990,-61966351,-60336536,-59688168,-61231964,-64426231,-67327766,-59072128,-37366341,-25618956,-26180613,-28822538,-29288000,-29343338,-30347572,-33614933,-49217888,-53592804,-56279888,-60697781,-61256485,-54329876,-48759094,-51841518,-52460331,-52106831,-49023617,-47046516,-44969719,-44901463,-42324970,-41922928,-40158035,-38579590,-35644695,-35035965,-34646156,-33947708,-32657814,-31251375,-29228521,-27553886,-24647594,-22924982,-20928782,-19153242,-17039614,-15708241,-14239624,-13817413,-12225573,-10625672,-9056806,-8126473,-6762762,-6647989,-5466811,-3590262,-36592,1471344,5565402,8818471,10254919,10839354,12979012,14724117,14548364,14225557,14605250,14898501},
{-30149969,-28769741,-26059734,-22847523,-18880142,-15833079,-12748608,-8345259,-2743253,687969,3149702,3707274,2686044,4275348,5322563,6519074,8762874,10064101,13244590,16631708,16691881,15610069,15169150,15376064,15228893,14532688,14756964,16789858,18596371,20475124,22798191,22761562,21147327,19130030,19702782,20348307,22531296,23465355,23737055,23796341,23167910,22472242,21728630,20618189,19345257,17958122,16563129,15022052,13387642,11282671,8924774,6552203,4508928,2023829,116100,-2049286,-4167827,-6366298,-8892120,-11465295,-14592432,-17288855,-19886269,-22666174,-25352419,-28260965,-31087629,-34657803,-37956554,-41301044,-45066387,-48456367,-51633717,-54840523,-57974960,-60063431,-61985100,-64452690,-67813515,-71605423,-74271675,-76598335,-79395012,-81082245,-85557213,-86527603,-87177185,-87861664,-92134285,-94575081,-94169983,-95926727,-99274071,-98731743,-99318474,-99152138,-98389030,-96155197,-94739662,-95061104,-94514343,-93321747,-91504562,-89524437,-87995926,-86618195,-83713394,-77363747,-69865601,-64511978,-64843697,-64038139,-61505783,-60141670,-59812592,-62317471,-66223831,-67777565,-53402042,-31122448,-24713797,-27999220,-28613714,-29819916,-30398949,-32353050,-33473511,-49094307,-54934341,-57998764,-62010857,-63525631,-57024910,-49163052,-51221256,-56476837,-49380585,-48475098,-49678860,-45617985,-43179043,-41181255,-42607285,-40295155,-38491772,-36262020,-35335384,-35050232,-34784126,-33506371,-31295713,-29239017,-27605618,-24793016,-22864689,-20514341,-18840088,-17071955,-15865280,-14595562,-14088433,-12704483,-10736942,-9400073,-8206703,-6735672,-7079725,-5939795,-4054239,-388528,1100421,5135993,8685131,10091048,10644867,12843926,14780890,14377363,14149329,14573135,14898501},
{-30149969,-28797115,-26188860,-23145889,-19253407,-16117077,-13141774,-8900966,-3263394,203209,2330011,2811535,2598638,4337940,4900638,6303175,8430656,9283387,12442062,15780755,15542253,14623008,14502653,14589334,14843303,14135325,13857698,15787303,17148048,19298254,20844635,19890644,17947245,18180401,18723125,18941875,20813665,21978477,22177422,22182163,21822252,21045248,20182062,19276009,17966700,16494022,15147605,13140111,12022071,9731267,7506423,5135738,2708809,547889,-1642627,-3753316,-6014472,-8012203,-10537760,-13029417,-15805294,-18802008,-21541683,-24349138,-27015617,-29633013,-32936901,-35795895,-38536800,-42086502,-45765614,-48667339,-52807781,-55936829,-58772205,-61233860,-63675789,-66004791,-67345757,-69967499,-73318054,-75390297,-78894539,-80397064,-83964287,-86157600,-86919174,-88767807,-90380898,-91717697,-92770432,-94634880,-95453888,-94960579,-95070450,-94618195,-95036606,-93859909,-92474876,-92087456,-91340912,-90046585,-88789803,-86983757,-86390160,-84414505,-83313660,-79810738,-71400589,-65534935,-61722015,-61884209,-60013611,-56831226,-58337738,-62525414,-66933807,-67031174,-51389591,-28873808,-26628405,-28862749,-29961123,-30494911,-31307716,-33588451,-35130821,-45813763,-55461952,-59615635,-63662762,-64929222,-58059418,-50962917,-51582516,-59070831,-50967045,-47945469,-50701015,-46580059,-42129353,-40000790,-43290878,-40746857,-39170177,-36398758,-35664665,-35523056,-35289154,-33787758,-31132883,-29481176,-27475044,-24303234,-22643732,-20523293,-18791059,-17146175,-15617097,-14819507,-14160857,-13048026,-11307099,-10247536,-8601875,-6829019,-7882812,-6190435,-4387022,-809290,974438,4696422,8587100,9905903,10462173,12744536,14757823,14234284,14069674,14540288,14898501},
{-30149969,-28825308,-26321186,-23444937,-19636057,-16409163,-13522235,-9410945,-3769416,-296561,1531402,2007828,2370996,4078477,4380188,6074326,7991970,8499388,11535295,14688120,14383100,13710583,13748611,13652793,14179771,13400455,12922562,14134888,14990062,17088953,17831776,16430416,16269043,17405521,17743727,19080288,19922195,20348421,20684687,20638006,20431738,19627201,18751581,17871771,16653719,15063997,13603293,12081480,10103555,8199588,5985063,3663176,1180288,-1168956,-3205013,-5589867,-7500747,-9959229,-12604771,-14969547,-17572475,-20024523,-23020504,-25846470,-28847076,-31658474,-34390022,-36854427,-39216625,-41930035,-46603596,-49945026,-52351967,-56576118,-59015827,-61047852,-64031372,-66572502,-69023796,-69335815,-70956314,-73544167,-76451950,-78156204,-80747665,-83062195,-84772728,-86508850,-86991829,-88067726,-88647430,-90967575,-89865074,-90735512,-89701088,-90216324,-90385635,-89607971,-88401726,-87745033,-87686432,-87509911,-86517555,-86237129,-86160057,-83223518,-81191444,-79990692,-75903816,-66868896,-62100681,-60284523,-58368427,-56109268,-56638420,-62445404,-65899643,-65075020,-45005398,-27441208,-27999275,-30603535,-30842976,-31420595,-32955532,-35143295,-36837101,-41521893,-54987507,-60836670,-65184425,-65898315,-59367462,-49109615,-55906593,-63238342,-55923805,-47152718,-50875286,-43487797,-41279663,-40480518,-43467419,-41646008,-39411694,-36839336,-36013580,-36032997,-35527752,-33945339,-31428232,-29155451,-27083025,-25001329,-23500719,-21025326,-19213617,-18082365,-15539154,-15117903,-14133952,-13481651,-12086758,-10776533,-9116212,-6766959,-8732533,-6299499,-4623306,-975164,964433,4356943,8462562,9727610,10308791,12642095,14625375,14106579,13992417,14506390,14898501},
{-30149969,-28854076,-26456673,-23743805,-20023407,-16718004,-13884791,-9891909,-4274652,-837308,751041,1270064,1988319,3499893,3762557,5734879,7356563,7698996,10491993,13400238,13353110,12998299,12904780,12538417,12979708,12236149,11947687,12652119,13220248,14383473,14191906,14568654,15255183,16440657,17184067,17905947,18427374,18989239,19258354,19142754,18845743,18223886,17341011,16382862,15117802,13652282,12129808,10717730,9089877,6741225,4379460,2111639,-246667,-2727219,-5245428,-6795578,-8873574,-11011685,-13750684,-16794077,-19014790,-21651909,-24441210,-27026320,-29834969,-32488640,-35092892,-37373646,-40197643,-42703243,-46102894,-51039787,-53604988,-55846668,-58235146,-58403217,-62709621,-65300461,-68158638,-69206879,-69845695,-71948090,-74368080,-75795609,-76552834,-78418243,-80081169,-81718048,-82563240,-83815521,-84111572,-85894478,-84711212,-85171356,-85654617,-85492928,-85374001,-84697586,-84471207,-84380219,-84329247,-83861412,-83198921,-82076363,-80293343,-79281425,-77994774,-76662331,-73537743,-69756172,-62990723,-60543037,-57770161,-56517635,-56284821,-60738892,-64514801,-59077652,-33393929,-28497271,-30373514,-31329039,-31269608,-32465073,-34358479,-36551643,-38017090,-40089359,-54838749,-62356434,-66035461,-64805466,-59809734,-49606846,-61548401,-66244415,-59735699,-48053009,-51305435,-43694599,-39782318,-40067616,-42350693,-41020649,-39064575,-37568802,-35601326,-35771255,-35082165,-34169441,-31953030,-29290432,-27077518,-25758373,-24234735,-22144268,-20168642,-17406189,-15426490,-15031116,-14150509,-13921668,-12351232,-11048779,-9618139,-6763988,-8687679,-6314487,-4795441,-1081667,1098209,4048341,8282973,9521752,10161088,12514801,14446565,13996104,13923027,14471080,14898501},
{-30149969,-28883312,-26593225,-24043203,-20422384,-17041763,-14231469,-10331965,-4801311,-1437657,-32133,573243,1431818,2621618,3049945,5180212,6481262,6897331,9338312,11973227,12549334,12509545,12012260,11356633,11974069,11315713,10932543,11632308,11899311,12681420,12533288,13360743,14873916,15704951,16065466,16692188,17215429,17419678,17756735,17728361,17389248,16748117,15936831,14950383,13623278,12141124,10770040,9231971,7605192,5448548,2570304,251580,-2112941,-4365404,-6778566,-8933966,-10215986,-12179154,-14287315,-17266094,-20030539,-22909096,-25693975,-27422897,-29211781,-31973740,-34910892,-37632488,-39977600,-42348331,-44710133,-48379005,-51852364,-54387875,-56633732,-56418018,-60749077,-65322479,-66982071,-67708969,-69082008,-70017960,-72087166,-73285286,-74443390,-75744057,-76148201,-76905922,-78257896,-79277092,-79041344,-79701607,-80203041,-80323502,-79994164,-79835632,-79289070,-79082428,-78334961,-78335426,-78910797,-78742958,-78672256,-78125000,-76950508,-75932610,-74939201,-73203308,-70963440,-67758163,-63789234,-61635681,-59098919,-56394611,-55474678,-59210361,-61909946,-51223186,-27909130,-29683212,-30676386,-31339979,-32376301,-33813671,-35754791,-37724590,-39283127,-42693340,-48256432,-63094055,-66101906,-63240269,-62111298,-52317783,-65862778,-66659103,-60924473,-53450447,-50153835,-42538628,-39350517,-39355526,-41535854,-40166763,-40234974,-36767395,-35892693,-36925983,-35181412,-34236786,-32198769,-29207977,-26720703,-25397388,-24603390,-22591349,-20561718,-17571571,-15613126,-14355342,-14100863,-14008040,-12559340,-11363086,-9992910,-6894248,-8228302,-6397293,-4893721,-1271519,1254259,3867912,8040535,9300238,10017406,12359920,14346520,13914367,13861654,14434020,14898501},
{-30149969,-28913086,-26729408,-24340626,-20823895,-17385132,-14570421,-10754455,-5371041,-2130456,-857096,-117923,681053,1499278,2212482,4373816,5436583,6147110,8129050,10510455,11911636,12124214,11151716,10203973,10708868,9891832,9742564,10094485,10579130,10883864,11303472,12644282,13906594,14743527,15132112,15588502,15928068,16074131,16390810,16223177,15830471,15217762,14534681,13445184,12133888,10711767,9252754,7781846,6088160,3835869,1021099,-1538906,-3958779,-6423133,-8622765,-10821260,-12720224,-14416150,-15782532,-17495520,-20656809,-24491665,-27735147,-29135700,-31259623,-33010017,-36121540,-37757679,-39914677,-43033058,-44581505,-46708855,-48149044,-50853115,-54027554,-56373520,-59466724,-62679424,-64588928,-66437439,-67830276,-67941994,-69344505,-70151535,-71311859,-71981140,-72400543,-72705566,-72260094,-73875717,-73781471,-73593178,-73513977,-73777855,-73184692,-73440125,-73429520,-73638382,-73246536,-73454292,-73646614,-73618774,-73536514,-73351837,-72880486,-72329514,-71716301,-70566681,-68769318,-66555649,-62120560,-59378937,-58333996,-57329670,-56335026,-56742970,-57747864,-46668285,-29378174,-31754629,-31489655,-31842453,-33808147,-34770187,-36718193,-38883030,-40290936,-43435726,-44735794,-63177235,-65693825,-61735683,-61414467,-61943905,-62685181,-64490250,-60415184,-54443550,-47535400,-41917290,-39498318,-39458706,-40310936,-39444138,-38989155,-35652458,-37519840,-37982113,-36083870,-34802868,-32741764,-29853270,-26811394,-25912230,-24858101,-23044239,-21547186,-18353189,-16499174,-14087440,-13732491,-13853168,-12576747,-11605030,-10160789,-7056387,-8079983,-6314917,-4912227,-1642923,1355825,3980542,7767663,9064412,9881695,12188926,14285988,13858479,13802993,14394961,14898501},
{-30149969,-28943632,-26866274,-24635843,-21229382,-17747452,-14911772,-11172045,-5997692,-2906056,-1742592,-869236,-230047,226891,1278325,3349078,4334693,5493425,6999709,9138035,11430242,11713862,10248736,9110270,9552074,8513351,8386554,8424064,9102861,9572314,9972931,11709907,12661044,13560513,14068221,14343357,14674313,14916052,15028552,14714232,14296754,13724330,12988932,11881390,10612140,9182985,7767883,6161535,4439844,2003915,-322541,-3390306,-5956979,-8157212,-10474103,-12867280,-14752068,-16863146,-18781092,-20712513,-22490820,-26897589,-30055510,-31961159,-34102039,-36094467,-38077545,-40503754,-43539364,-45904404,-47824772,-50502377,-52790394,-54739346,-57177078,-59110966,-59866550,-60051113,-61367870,-62618938,-64639305,-64516052,-65096077,-65266533,-65564644,-67100235,-66143059,-67468544,-67584328,-67303078,-68828362,-67810570,-66449493,-66793755,-66805489,-66744461,-67214622,-67270378,-66666893,-66698586,-67480942,-67982780,-68493263,-68376038,-68330345,-68336624,-67900978,-66994118,-66559547,-64607544,-60839260,-57131073,-56978878,-56237080,-55340870,-54874577,-53822140,-45103867,-28795748,-33004417,-32621212,-32910789,-35141682,-35978752,-37815105,-39579494,-41309422,-45550243,-45427551,-58248535,-65872772,-61012047,-62973019,-65242661,-60350246,-60665714,-57551918,-52401253,-44638641,-43227283,-40918556,-38760361,-39160622,-38467243,-36388729,-35978813,-38022186,-38325722,-36634369,-35735596,-33922058,-30841911,-26870079,-26181335,-24505342,-22761555,-21904873,-19054783,-17167835,-15044149,-12725304,-13635105,-12606890,-11629163,-10132752,-7161688,-8075481,-6290804,-4755930,-1763509,1423020,4201797,7515780,8820510,9742288,12008901,14174086,13812778,13741619,14353809,14898501},
{-30149969,-28975258,-27005829,-24929953,-21644005,-18133661,-15257204,-11605103,-6700212,-3800856,-2706234,-1705130,-1343995,-1144898,238969,2170327,3254346,4963503,6013843,7952549,10991384,11252137,9257503,7949363,7659135,7126674,6767113,7156305,7662389,8148888,8933613,10196736,11692618,12623088,13194726,13106351,13337565,13583555,13879528,13248717,12718578,12209825,11387593,10285199,9113949,7738183,6220182,4509542,2604629,219491,-2379945,-4911532,-7489900,-10089666,-12153496,-14641530,-16689598,-18916414,-20995888,-23039345,-25117481,-28399771,-31041428,-33583462,-35651348,-38042824,-40418808,-42280254,-44262463,-46021343,-48025402,-50452621,-52364807,-54127098,-55409546,-56999939,-59128201,-61220303,-62502094,-64205925,-64181015,-64472572,-64457504,-63791103,-62989376,-64211441,-62483822,-62875240,-63864677,-62062115,-63285660,-60947155,-60825172,-60396503,-60374817,-60533466,-59930107,-60383736,-61881695,-62179119,-63078392,-64112610,-64163139,-64579140,-64440651,-64035088,-63999557,-63150959,-63121021,-62860291,-59472290,-56251793,-55906422,-55366222,-54541298,-53472317,-50824745,-43062962,-29634016,-32822342,-33748543,-34031075,-35115517,-36643383,-38763451,-40432529,-42024223,-46786457,-49856392,-54793915,-65970154,-61926086,-62385906,-64327179,-59350113,-58261169,-54449898,-49248241,-44437469,-44355824,-41629692,-40411095,-38770824,-40023098,-37134125,-37167664,-38828426,-38276630,-37218628,-36810368,-33660870,-30103363,-27281157,-26114780,-24118765,-22575785,-21893311,-19592911,-17355982,-15187374,-11744380,-13638640,-12730848,-11159787,-10239735,-7659548,-8040395,-6378252,-4501810,-1737898,1491874,4311956,7282640,8579536,9616236,11813496,14026045,13767767,13677242,14310651,14898501},
{-30149969,-29008226,-27148138,-25220474,-22056286,-18533058,-15612660,-12062793,-7481236,-4791213,-3746082,-2648547,-2550519,-2460567,-843072,884763,2270971,4483480,5188972,6923019,10510517,10828935,8261430,6595176,5324489,6112098,5573040,5869986,6027681,6448130,8145966,9496158,10572525,11393416,11844390,11931837,11980233,12186285,12372165,11960496,11345022,10666561,9805513,8661222,7529007,6186120,4513955,2923642,706696,-1572627,-4211725,-6711468,-9420188,-11904182,-14120021,-16400124,-18614336,-21073553,-23114313,-25356142,-27266239,-30713316,-33536133,-35587795,-37437641,-39270565,-41391258,-43291821,-45019478,-46146416,-48021614,-50547123,-52021454,-53680927,-55769501,-57250294,-59032650,-59315945,-58884674,-59543083,-60037987,-59957485,-60780079,-61171352,-60719608,-60213531,-59968723,-59012730,-58973862,-58768349,-58046219,-57314037,-56555355,-55092861,-54794998,-54291031,-54441933,-56003880,-58393848,-61018566,-62642273,-63268665,-63098484,-62189575,-61788059,-61068741,-60836388,-60524811,-59930035,-59904884,-56373867,-55363838,-54998638,-53759048,-53548050,-52210354,-48857101,-43928513,-31987246,-32350948,-35369396,-35156025,-35741886,-37009823,-39410633,-41013943,-42450886,-46848530,-54996502,-55160419,-65914787,-63928745,-61839478,-64881653,-58610428,-56049160,-52735622,-46945030,-45371643,-45597942,-42576023,-41990780,-39530575,-40603104,-39169342,-38399372,-38728729,-38728832,-38174423,-36097218,-32665230,-29584351,-28076103,-26350903,-23692947,-22056942,-22212601,-19399393,-17309946,-14959556,-11570324,-13903509,-12670998,-10824313,-10326247,-7877716,-7772241,-6296758,-4279108,-1744721,1478831,4113893,7007054,8317957,9523956,11596935,13859312,13720297,13614196,14265742,14898501},
{-30149969,-29042633,-27290976,-25507771,-22477694,-18952166,-15976567,-12552288,-8347208,-5841734,-4854866,-3702584,-3798697,-3727854,-1912359,-390023,1327638,3963566,4480974,5899466,9734747,10471915,7495744,5134559,3703222,5254064,4658173,4644321,4202711,4845265,6702991,8392423,9524071,10220462,10673596,10658276,10727951,10839004,10927650,10552991,9942022,9317083,8235848,7134529,5930014,4513445,2857702,926958,-1157900,-3522885,-6083592,-8495823,-11047824,-13636284,-15928992,-18003490,-20458481,-22640446,-24999878,-27513716,-29392494,-32406151,-34403172,-36692585,-38534237,-40413513,-42401634,-44201336,-46008438,-46877533,-47555508,-49840603,-52258102,-52832844,-53952915,-55387409,-56354954,-57195042,-58299984,-57099773,-58018677,-57260231,-57782314,-57445530,-56391171,-55655312,-55012913,-54033649,-53729263,-53446651,-53025421,-52317188,-51369083,-51018566,-51369926,-52436478,-55273781,-57474159,-58249622,-59313049,-60660778,-61479038,-62091732,-62125401,-61732407,-60186913,-59371227,-59353466,-58972290,-59253185,-54050720,-53506416,-53493076,-52848877,-52935867,-51074661,-46947006,-43781803,-30189344,-31904713,-35640144,-36684643,-36902042,-37726906,-40234764,-41587654,-43517536,-50201736,-58860767,-55887527,-64576477,-62841293,-62786640,-64454315,-57085934,-56616154,-51915276,-46979702,-49143276,-45472397,-44893051,-42349430,-40783714,-40416958,-39854744,-38275517,-37951920,-39125278,-38153751,-35019432,-31785664,-29611692,-28487181,-26158674,-23697702,-22636581,-22355148,-19163841,-16898354,-14087423,-11520924,-14354212,-12996396,-10882150,-10397665,-7943712,-7460159,-6202001,-4174323,-1666992,1171549,4174569,6773840,8045830,9479335,11359351,13696672,13659492,13556142,14219468,14898501},
{-30149969,-29078356,-27432547,-25794386,-22895716,-19383034,-16364450,-13097134,-9270089,-6932273,-5997025,-4843633,-5054407,-4844766,-2931868,-1623771,362564,3257393,3796448,4709326,8397988,10062674,7195658,3906698,2402900,4883106,3976906,3494650,2248551,3356188,5146842,7124290,8509544,9098742,9485727,9182558,9455439,9428959,9520151,9295619,8605738,7770411,6753663,5641613,4271497,2833368,1031906,-891038,-3024220,-5270951,-7964796,-10484178,-13089223,-15505740,-17698799,-20228580,-22251740,-24491997,-26449528,-28223850,-30137295,-32865997,-35195278,-37471241,-39486538,-41321571,-42960075,-44682667,-46259312,-47553562,-48056404,-48694675,-50729645,-51900475,-52698486,-53716770,-54600563,-55686378,-55668362,-54661877,-53752346,-54104713,-53462467,-51696213,-50591187,-49829739,-49166149,-47696320,-47227726,-46705887,-46870743,-46370384,-47257843,-48794327,-50560707,-50272865,-53810246,-59045578,-59788090,-60331562,-63914009,-64130821,-61592796,-60597080,-59868385,-61963970,-61002480,-59893337,-58889179,-56720341,-52474415,-51340401,-50347534,-50393997,-51009113,-48883324,-50552246,-51225121,-37570854,-31417086,-35087490,-37350029,-38352974,-38771561,-40851284,-42232891,-43797440,-55296936,-60308456,-55971611,-63458843,-61927692,-63673862,-62636925,-57751526,-55448418,-49823898,-48623043,-48635803,-46720757,-46121765,-42421841,-41163879,-40674191,-39349709,-37696049,-39445847,-39098606,-37009426,-34003185,-31054501,-30129536,-28376593,-26178919,-24815573,-24211578,-22527851,-19389093,-16216469,-13769785,-11767970,-14596374,-13502748,-10630193,-10131575,-8077498,-7310664,-6184057,-4017282,-1403867,2178259,4194152,6594797,7791856,9447681,11136535,13557508,13565557,13502229,14172275,14898501},
{-30149969,-29115065,-27573738,-26077492,-23309877,-19825212,-16770214,-13699568,-10262024,-8030203,-7141462,-6032719,-6283736,-5832710,-3879883,-2786568,-706099,2264250,3048241,3255461,6309654,9262707,7296850,3079451,1268620,3940603,3153830,2379694,856433,2140435,4229284,5856978,7249794,7888258,8012032,8092471,8089102,8180106,8064286,7810139,7126216,6284101,5202079,3910245,2648786,1106964,-755794,-2711925,-4931697,-7360174,-9858361,-12359738,-14803490,-17188622,-19517452,-21738403,-24006577,-26310030,-27756708,-27292849,-31158262,-33352066,-36367504,-38544739,-40250847,-41873806,-43148632,-44641785,-46200947,-47337276,-48516388,-49883312,-50160053,-49603481,-51478691,-52609886,-52680233,-52683372,-52354942,-51585934,-51665813,-49473728,-49593849,-48260956,-47610256,-45467991,-43819645,-42508640,-41766777,-40503448,-39836750,-40208530,-43281551,-44399807,-44528019,-49241718,-52458641,-49696491,-49294666,-51873493,-52805855,-53440075,-54116096,-56685978,-58311771,-55677189,-56135609,-57555691,-56120861,-54016781,-52455189,-49906395,-52737385,-54252815,-52791557,-50042557,-53296936,-57589687,-47663059,-31874945,-34906731,-37136147,-39146118,-39674873,-40631195,-42176998,-45181850,-57179821,-58732468,-54066139,-62035881,-62014160,-63095890,-57456581,-59478352,-54047630,-49427475,-49790146,-48502468,-46415615,-45615631,-42073944,-42412868,-39772346,-39006058,-37477917,-39526527,-38682503,-36647953,-33347790,-31056541,-30683971,-28840042,-27075712,-26182817,-24818338,-22119087,-19386370,-15791007,-13998668,-12372128,-14560854,-13961329,-10841383,-9750109,-8187390,-7073267,-6110703,-3692576,-1094413,2217222,4323834,6567477,7538201,9397614,10966394,13410187,13428939,13448502,14124617,14898501},
{-30149969,-29152332,-27716948,-26356390,-23729763,-20280315,-17193293,-14345881,-11292093,-9087578,-8246076,-7234025,-7468873,-6734412,-4769418,-3863215,-1892120,971993,2207880,1581438,3457705,7643534,7234159,2577767,316311,3519721,2778083,642942,-117870,1662833,3109122,4821497,5973268,6407747,6676385,6833584,6924835,6813629,6625875,6211540,5695094,4836531,3687757,2482563,1045193,-548542,-2652009,-4601488,-6852503,-9323407,-11842518,-14264138,-16843439,-19211628,-21628494,-23799944,-25931871,-27831966,-30127234,-29616236,-31902470,-34026203,-37071754,-39335739,-41173626,-42562908,-43702011,-44670242,-45801510,-46910477,-48168835,-49045563,-50647766,-51546310,-49739056,-48729862,-49445995,-47026333,-48038166,-47706173,-46578388,-45888618,-44611820,-44411480,-43351269,-41338955,-38937225,-36636189,-35270874,-34460823,-34246452,-35343754,-38863770,-36692608,-42727116,-41039593,-39995708,-41761597,-42869442,-44220158,-45846272,-48001656,-48956589,-49725529,-50206772,-50032646,-49858028,-50995678,-49905586,-50657913,-51770813,-50137634,-50166996,-52683018,-54249409,-53130268,-48890675,-55912930,-51200039,-41083538,-37931080,-38208271,-39368855,-40348866,-40828857,-42075104,-46131435,-56412273,-53258568,-51487049,-59109005,-59862293,-60967083,-57297035,-60414345,-51432568,-52182941,-49637547,-47249157,-45622059,-45349052,-43338219,-40367710,-39647339,-37936550,-38359386,-39627651,-40556255,-37994862,-33581348,-32882999,-31017321,-28734993,-28018564,-27151932,-24413057,-21710485,-19273502,-15647614,-13312878,-13133880,-14257557,-13905979,-11570323,-9443339,-8520215,-6906947,-5895393,-3474638,-709764,2398880,4439819,6613853,7269759,9332142,10805347,13242039,13263321,13391698,14076924,14898501},
{-30149969,-29189774,-27863094,-26635096,-24143103,-20738176,-17638050,-15032843,-12335407,-10086794,-9299094,-8442746,-8635071,-7631091,-5632055,-4851471,-3169078,-525843,1231355,-109724,195591,4866906,6186965,2065273,-909678,2608230,1529376,-841888,-1140916,447842,1797084,3584569,4529491,5168105,5480639,5628029,5761736,5478459,5156098,4771132,4202955,3341519,2377674,968225,-667011,-2372274,-4457651,-6493328,-8858186,-11235525,-13622551,-16147284,-18721457,-21142971,-23479656,-25839037,-27811895,-29185720,-29350121,-32195454,-33396275,-35438919,-37668221,-39785454,-41950867,-42628498,-44141220,-44794262,-45735302,-46400848,-47677834,-48756992,-49378063,-48932255,-48789272,-48063961,-45905350,-43383133,-43688091,-43675957,-42970188,-42322636,-41650440,-39560482,-37227833,-34790512,-32815807,-31195061,-30399477,-29585772,-29697886,-32157646,-32144691,-31766119,-32759495,-27883160,-33735298,-34722927,-36052982,-39101372,-42257633,-44355846,-45919537,-46478039,-46122581,-46815742,-47179211,-47651024,-46670509,-46415627,-46792122,-46828114,-47578445,-47551079,-47422325,-47835957,-49785442,-49063087,-49138538,-38085869,-35262589,-38102180,-40038952,-40710499,-41048203,-41726662,-44930843,-54037407,-48997074,-50068752,-56028149,-58217892,-57527962,-59139076,-57356487,-52755196,-50922733,-48985569,-46569489,-45502846,-44016567,-42516102,-39597012,-38772461,-36683907,-38287735,-39853676,-40573170,-38688583,-34232574,-34261204,-32110947,-29001034,-28639763,-27045965,-24680107,-22270044,-19805262,-15912639,-13754244,-13731358,-13609000,-13049683,-12063559,-9614342,-8926459,-7160460,-5713544,-3485426,-355738,2646417,5264938,6589766,7016491,9280028,10653124,13043106,13086699,13330493,14029592,14898501},
{-30149969,-29227186,-28010639,-26910923,-24555796,-21196915,-18102077,-15758413,-13373185,-11005680,-10279687,-9636647,-9821969,-8630936,-6543196,-5763104,-4430675,-2099467,114941,-1687789,-2960958,1176640,3693665,1069045,-1757691,1450004,245323,-1515940,-2023101,-725669,440236,2031717,3064705,3767758,4336461,4349000,4510747,4158037,3808030,3135382,2546086,1960911,807853,-539390,-2294643,-4452188,-6356670,-8454321,-10855324,-13177229,-15498179,-17898932,-20532297,-23028612,-25201136,-27500504,-29336498,-31194107,-30412523,-33538250,-35044773,-36676003,-38221558,-39929371,-41979782,-43156639,-44375404,-45675491,-46416405,-46982269,-47546101,-47576603,-47909813,-47650593,-46234932,-43995365,-42749084,-41842781,-38617043,-39199566,-38463722,-37334755,-35016453,-33424610,-31321915,-29721674,-27558939,-26525793,-26033962,-26892689,-28925327,-25360809,-26625772,-28527967,-21243305,-25302246,-29753593,-30619701,-32005199,-33818420,-35759727,-37757362,-39322292,-40713310,-42530647,-43450386,-44227222,-44132496,-43167084,-42101757,-42556473,-41989975,-43859184,-42937599,-45121201,-46483715,-47124092,-44348328,-38569508,-33136219,-33941696,-37547169,-39505836,-40054253,-40107155,-41555450,-45542858,-52499729,-47372501,-48189781,-55051857,-56768673,-56389233,-56627800,-55685810,-52013168,-49050529,-47047493,-45076637,-44790623,-42515522,-41868507,-39675331,-37787209,-35731789,-37757278,-40569149,-40440151,-39691532,-35039795,-34396160,-33524658,-29729914,-28681980,-26658791,-24839609,-22632759,-19355242,-16242523,-14408285,-13731945,-13064028,-12391572,-12485306,-10166838,-9067603,-7479015,-5628483,-3472732,-116308,2794046,5197838,6552065,6828012,9255313,10545654,12813653,12897994,13263849,13982992,14898501},
{-30149969,-29264606,-28157652,-27180321,-24963499,-21656759,-18582832,-16511963,-14396707,-11879182,-11206604,-10811282,-11065636,-9802985,-7549979,-6603283,-5603755,-3648144,-1224169,-3095005,-5516661,-2746018,208540,-427391,-2168349,282186,-359223,-3094695,-3185005,-1959259,-908586,596612,1168238,3130107,2910931,2533719,2942947,2924272,2259702,1744988,994138,268248,-753506,-2277977,-4162830,-6066292,-8221089,-10580869,-12691759,-14855312,-17426743,-19809944,-22246494,-24741293,-26961946,-29010635,-30783451,-32926430,-31840881,-34197071,-35493256,-35688274,-36678505,-39842197,-41456844,-42985729,-44481216,-45894054,-47064476,-47760246,-47716450,-47168068,-46332867,-45407562,-44785721,-43696613,-41933517,-40150070,-37773457,-36579292,-35066578,-31991119,-29905848,-28497545,-26854229,-24134205,-21844984,-21537813,-24068211,-21720114,-19083937,-18996454,-20933493,-19072573,-20347700,-22117842,-23321768,-25118000,-27097933,-28875975,-31389389,-33822929,-35787674,-37608620,-38800205,-39264053,-40320778,-41113785,-40767387,-40664097,-41113487,-41602612,-42424507,-42301506,-42738136,-42026287,-43081062,-43515495,-38291439,-33346306,-35332344,-36805706,-37348064,-38153809,-38777798,-40812786,-46242821,-48853806,-45934158,-46835270,-56671276,-56837025,-56321793,-55503567,-53951344,-49372772,-49237148,-45916298,-44484371,-43992619,-42023178,-40686081,-38144798,-36625214,-35918865,-38418056,-41225597,-40276875,-39941704,-35512711,-34256409,-33710896,-30555824,-28889673,-27178122,-24415186,-22866375,-19235266,-15969954,-14699793,-13843096,-12290651,-12120258,-12602305,-10586976,-9098514,-7696061,-5600144,-3245192,91008,2845120,5303376,6493281,6712940,9255431,10468425,12580914,12688806,13190013,13937482,14898501},
{-30149969,-29302290,-28304098,-27448799,-25362595,-22105261,-19065228,-17277126,-15384146,-12700278,-12105404,-11963565,-12382126,-11186745,-8662936,-7379971,-6677893,-5171013,-2876906,-4429156,-7214205,-5897214,-3255242,-2066362,-2259465,-775978,-330471,-4285135,-4641955,-3693421,-2111076,-671761,-1347,652253,1375052,2699100,1409711,1606804,891958,249478,-474282,-1446824,-2350255,-3784984,-5788190,-8048741,-9896318,-12239755,-14519227,-16796398,-19153944,-21587683,-23982452,-26188547,-28341398,-30194115,-31866299,-33284637,-33202007,-35300537,-36432652,-36471783,-37434982,-39670685,-41150982,-42498241,-43886127,-45329628,-46425900,-47228622,-47138828,-46397655,-44994232,-43787971,-43380367,-41760029,-40110966,-37513725,-35369217,-33459652,-31578775,-29221668,-25792820,-22985462,-21400215,-19052763,-18831053,-22618052,-16913057,-16175714,-12419190,-12310953,-11007695,-12898413,-16083183,-17523891,-18892252,-21018204,-23159418,-24995626,-27991716,-29789295,-32152569,-33620171,-34910843,-36039043,-36635674,-38237270,-38752430,-39373371,-39434296,-39960804,-40722073,-41274246,-40293381,-40178471,-38819435,-39313560,-36627270,-34271961,-35760216,-35898746,-35892273,-36609966,-38307888,-39709484,-42978462,-46161568,-44782955,-47205551,-56711472,-55880463,-56112289,-54489159,-53130005,-49139301,-49130013,-45274860,-44029827,-43082005,-42038639,-39124836,-36760040,-35736893,-37201046,-39967243,-40789246,-40436935,-39551270,-36060848,-34034443,-33219093,-30663889,-29581766,-27598141,-23868706,-22193825,-19161844,-16186333,-15262198,-14094251,-11407004,-12274960,-12054429,-10933738,-9216326,-7531558,-5312090,-2911735,63219,2796662,5738754,6328714,6659071,9270638,10456835,12352915,12467432,13107487,13893392,14898501},
{-30149969,-29340582,-28451468,-27718729,-25751553,-22554144,-19557951,-18035208,-16343472,-13507446,-12996984,-13120042,-13730566,-12708287,-9859746,-8136632,-7722160,-6742808,-4950492,-5857043,-8131986,-7712657,-5622898,-3338603,-2290605,-1267186,-1405190,-5737644,-6199219,-5089887,-3284393,-1696187,-994669,-605884,-29647,514940,493689,106761,-421430,-1213560,-2069794,-2855979,-3992808,-5564298,-7391168,-9610690,-11921360,-14026247,-16014074,-18543724,-20978796,-23261971,-25454315,-27667042,-29536829,-31375931,-32820934,-34768909,-34520939,-36627243,-37512733,-37977673,-39127655,-39511875,-38910091,-41408985,-42954884,-43899399,-45028740,-45629730,-45992817,-45304886,-43683563,-42236427,-40498779,-39184883,-37828384,-36244225,-33025673,-28430927,-26472383,-25147907,-22333826,-18138714,-16792267,-18374228,-18606770,-14369708,-15884160,-11076663,-6921009,-6799549,-8262187,-9711194,-11168763,-12960572,-14847959,-16818438,-19397457,-22223190,-25118563,-27278053,-29254194,-31293131,-33224640,-34195610,-35091499,-36757141,-36962025,-37418030,-38139442,-38110596,-38740139,-38560986,-38506660,-38456863,-37377045,-36574879,-34130772,-33017723,-33649982,-34104027,-34905006,-35851158,-37302376,-40052853,-45394901,-45510887,-44023170,-51131886,-54758312,-55755806,-55799053,-53212265,-52142231,-48508167,-47774025,-44347610,-43995308,-42983948,-41904076,-38487682,-36037197,-35513870,-39066135,-40241379,-40442635,-39094570,-38785629,-36037079,-33958904,-32417130,-30726450,-29795715,-28448763,-23711828,-22119764,-19816261,-16153051,-16325865,-14488893,-10702580,-12131268,-11171723,-11344995,-9388137,-7425310,-4774232,-2556518,-176982,2742530,6349625,6062885,6600041,9290897,10466114,12134366,12255737,13015073,13850979,14898501},
{-30149969,-29379757,-28600542,-27985685,-26131069,-22980961,-20053444,-18785748,-17256487,-14334509,-13932635,-14266396,-15039511,-14264410,-11063299,-8937046,-8873791,-8515838,-7448276,-7571980,-8689509,-8195904,-6090098,-3949259,-2655626,-1937195,-4389307,-7319658,-7031106,-6080184,-4157218,-2860212,-1983795,-1384847,-926675,-324422,-657567,-1149911,-1840899,-2552824,-3486678,-4372878,-5563996,-7144091,-9165741,-10986264,-13479293,-16034191,-18047447,-20194651,-22614904,-24731623,-27012358,-29190670,-30975348,-32600666,-34423134,-34947918,-35655647,-36781330,-37987305,-38487686,-38860767,-38928440,-39904415,-40866550,-41301994,-42341290,-43409138,-44105061,-43588142,-43429176,-42364895,-41812656,-39736217,-36757961,-34348835,-31324471,-27298161,-25721067,-22952026,-20303446,-18426142,-16456997,-16335251,-14549720,-9162678,-9485209,-2031997,939835,-1634111,-3652773,-4322047,-5590621,-6807426,-8320181,-10601201,-13863168,-17107187,-20097294,-22591003,-24976078,-26851774,-29135128,-29892786,-31487713,-32260380,-32646393,-34099339,-34436245,-35226757,-36017956,-37274540,-37086712,-36800564,-36102604,-35605614,-34240150,-32625248,-31511276,-32741432,-32915916,-33764835,-34861702,-36621975,-39508179,-44762222,-43476528,-43949867,-50465496,-54010986,-54809013,-54333935,-51295090,-51093788,-48993660,-46065788,-43833633,-44141842,-42904217,-40812675,-38635357,-35459187,-36269600,-39266399,-39727627,-39127468,-37549774,-37032303,-35806339,-33790451,-32384575,-30671362,-29259670,-28681793,-24714052,-22205259,-19868917,-16258463,-16851044,-14522081,-10052440,-12798134,-11441832,-11438162,-9137626,-7337138,-4405635,-2438929,187567,2759654,6782180,5777583,6529394,9315845,10514174,11934426,12071310,12909368,13810361,14898501},
{-30149969,-29419886,-28750345,-28250654,-26504843,-23390585,-20541569,-19514956,-18131689,-15225707,-14955669,-15397855,-16247017,-15708118,-12226446,-9824134,-10281413,-10594909,-10302608,-9609986,-9386060,-8048904,-5196559,-3946712,-3576387,-3815778,-7720122,-8802733,-7967532,-6511787,-5201053,-4083063,-3324991,-2651676,-1909963,-1860481,-1914018,-2478192,-3142000,-3886525,-4834129,-5779990,-7058187,-8719361,-10855750,-12764807,-14687283,-17041800,-19462883,-21805202,-24171339,-26368948,-28439735,-30566236,-32398731,-33785069,-35916588,-37971226,-37392605,-38477226,-37845188,-38282364,-38427631,-38860138,-39607216,-39977749,-40702740,-41146671,-42056488,-42064442,-41997608,-41752312,-41401588,-39760384,-37181816,-34110188,-29771011,-25671080,-23372629,-22658476,-20436348,-16535732,-14512141,-14733263,-12357120,-8715847,-2237264,5187059,5210914,3262557,1654811,1031949,-555570,-1141309,-2294685,-4647311,-7728815,-11371613,-14451438,-17064833,-19591391,-21763439,-23429842,-25243002,-26690863,-28977779,-30482679,-31789009,-32241528,-33243210,-33574642,-34252644,-35373768,-35067402,-34678802,-34613804,-34675877,-33486069,-32074657,-31141491,-32239063,-32067795,-33069794,-34879932,-36634899,-38496548,-42991474,-42342880,-46420162,-50853355,-51830814,-52861248,-52328476,-49359039,-49532970,-47773029,-45368214,-44375134,-43660015,-42023941,-40023830,-37748947,-36161610,-37438347,-38666859,-38571869,-38163254,-36480076,-36103474,-35098480,-33033760,-32050289,-30055029,-28989874,-28479872,-24971169,-21797560,-18831469,-16263376,-16225710,-14067572,-11796330,-14078524,-12212038,-11124828,-8710658,-7012511,-4056458,-2244038,695265,2831371,6628373,5477073,6476484,9331438,10615685,11772552,11918815,12783556,13771430,14898501},
{-30149969,-29460766,-28899454,-28515482,-26865847,-23790907,-21032124,-20215887,-18986294,-16197882,-16077566,-16494003,-17275864,-16876770,-13268383,-10868482,-12022730,-13029314,-13361185,-11886324,-10549118,-8234628,-4287205,-4107211,-5005721,-6290548,-8867714,-9344509,-8352151,-7565830,-6699295,-5488159,-4647456,-4022879,-3497066,-3161398,-3338859,-3862474,-4401542,-5124188,-6117613,-7324189,-8550346,-10215967,-12344765,-14310644,-16328995,-18533516,-20696886,-23014017,-25284784,-27662249,-29841259,-31850439,-33480923,-37169266,-37514530,-39225285,-39986702,-39158707,-38711750,-38426235,-37716175,-38243225,-38684963,-39042778,-39549908,-39598984,-39449341,-39381298,-39931076,-39674095,-38719959,-37381668,-35332584,-32253792,-28119850,-23896242,-21003069,-18228325,-15530467,-12660277,-12902287,-11460361,-10144146,-3462274,9463945,8318071,7420861,6887679,6407608,4628988,3919768,2328337,884560,-1181394,-4688796,-8329734,-10957926,-13283584,-15867030,-17828779,-19154758,-22062250,-23967974,-26962713,-29577843,-29488043,-31487028,-29755804,-30832769,-31943314,-33234421,-32973003,-33020313,-32516495,-32101112,-33748878,-33442051,-35648026,-40529579,-31960733,-31721731,-33371040,-36052025,-38052834,-42560223,-41914742,-48579319,-49790596,-48947174,-49864826,-49920807,-48456512,-47102615,-46785721,-44894352,-43977234,-42836590,-40762142,-39713097,-37715813,-37060810,-37633816,-37725632,-36766335,-36682163,-35995926,-34515762,-33605328,-32360661,-31026724,-29742739,-29502602,-27787630,-23837677,-21062742,-18257639,-15778481,-15187244,-13902662,-12179486,-14024063,-12874177,-10655763,-8631419,-6614906,-3745421,-1834793,567330,2985271,6209924,5159161,6443796,9334035,10699160,11637505,11789014,12632217,13733809,14898501},
{-30149969,-29501972,-29047705,-28776373,-27219397,-24180838,-21518665,-20887804,-19810905,-17269327,-17294010,-17550259,-18058119,-17719698,-14165201,-12097527,-14093866,-15753203,-16454065,-14274410,-12257545,-9412200,-4622720,-5211057,-6742502,-7755304,-9901743,-10047581,-9035469,-7906186,-7251047,-6690599,-5726962,-5304889,-4800881,-4679719,-4597905,-4995748,-5770556,-6670870,-7447994,-8793241,-10113969,-11805083,-13838340,-15867870,-17908426,-20001842,-22140839,-24378790,-26576382,-28848839,-31020329,-33113575,-34941528,-37933445,-39579960,-40120564,-40442226,-39256390,-38808151,-38292999,-37949802,-37985447,-37909313,-37884487,-38376553,-37503212,-34912128,-36554211,-37182987,-37304417,-36292732,-34755081,-33124954,-30903456,-26839212,-21297880,-17309530,-13507319,-11093072,-9854633,-12106450,-9270945,-3751954,8934152,11386286,11589704,11361534,10888289,10367454,9208822,7877850,5966034,3515733,1302612,-2407964,-5007771,-7073960,-9651350,-12147543,-14055664,-16719929,-19550909,-20912729,-24364861,-26656088,-26671932,-29463924,-27250477,-28567640,-30463324,-30279856,-31847795,-31243229,-31189949,-31603983,-32593540,-37435287,-41577908,-42542534,-40891537,-34706360,-33922398,-36766125,-38171017,-42100441,-42908855,-46391094,-47676491,-47108494,-47661140,-47885487,-45809788,-45731091,-45667397,-43898876,-42987488,-42444248,-40206360,-39427990,-37498909,-38240616,-37045242,-35549404,-35101288,-35440376,-35176090,-33302349,-31951118,-31687889,-30145506,-29347368,-29383381,-26753582,-22459934,-20583269,-18213778,-15636670,-15123769,-13118782,-11625422,-12984979,-13071711,-10553888,-9056089,-6168379,-3576606,-1496000,712830,3071918,5520326,4811124,6422698,9278975,10789786,11481213,11666534,12459476,13696851,14898501},
{-30149969,-29542994,-29196035,-29033890,-27559967,-24551254,-21996590,-21536936,-20622459,-18424238,-18604542,-18530584,-18592903,-18194441,-14964056,-13535305,-16436607,-18624708,-19459362,-16705402,-14320300,-11569086,-6664518,-7477654,-8719759,-8947392,-11195561,-11528103,-9639231,-8766931,-7775406,-7556254,-6852867,-6468208,-5951109,-5817218,-5867919,-6277078,-6932824,-7978104,-8975296,-10052740,-11509472,-13311209,-15246716,-17192924,-19288273,-21475567,-23500267,-25513948,-27859056,-30075434,-32195549,-34108799,-36969826,-39990429,-40813866,-40816257,-40719395,-38699150,-39404152,-38766788,-38299492,-37788063,-37396267,-37295643,-36111210,-36836658,-34120346,-35351215,-35228783,-34954594,-34039722,-32667400,-30730511,-28336481,-24859077,-19919598,-13660096,-8169525,-5855677,-9079120,-11144011,-6155033,7423358,13670189,15059211,15639589,15285009,14941473,14453508,12905323,11721765,9728667,6530149,3727695,1061087,-1165416,-3397814,-6302649,-8909123,-11688154,-13343519,-15525930,-17499386,-20596443,-23115801,-24908560,-25100946,-26098648,-25887861,-28061966,-30391407,-30408655,-30479635,-31490252,-31606472,-31829054,-37054367,-41366325,-41820095,-42371555,-40518902,-37610870,-37799175,-39183739,-40179214,-41706364,-44243332,-44964916,-44650719,-45357353,-45402966,-43411022,-43596809,-43442566,-42373569,-42248592,-41051083,-40185886,-38910137,-36779236,-39050816,-36287544,-34273861,-34519741,-33971088,-34724167,-33324150,-31453783,-30689060,-29682013,-29213955,-28950052,-26188232,-21925062,-20274548,-18328329,-16192074,-14851096,-12059243,-11064127,-11991476,-12755133,-10671782,-9049597,-5816338,-3221596,-1200716,680331,2967102,4682382,4465880,6428758,9132053,10840243,11301865,11544360,12281122,13659716,14898501},
{-30149969,-29583410,-29344831,-29291664,-27892853,-24915409,-22480032,-22169460,-21420431,-19648659,-19942001,-19441694,-18949286,-18381929,-15748144,-15212294,-18879469,-21422977,-22274296,-19145967,-16437897,-14107802,-9817107,-10516567,-10942299,-10625420,-11671586,-12289048,-11562497,-10029835,-8891155,-8291997,-7999000,-7507836,-7279747,-6990755,-7179221,-7635885,-8292126,-9216159,-10171736,-11426925,-12942297,-14601837,-16539116,-18770481,-20723932,-22741468,-24994024,-26954683,-29140503,-31146454,-33043842,-34688572,-38399612,-40668015,-40738743,-40224655,-40115849,-39851891,-39338703,-38697617,-38701904,-38037991,-36870796,-36722916,-36973717,-36403831,-35937084,-34812710,-33837574,-33073620,-31909651,-30514647,-28167049,-24782269,-20516281,-16283386,-12550308,-8148258,-4788898,-8918469,-6529602,8743135,14945606,16842575,18098053,18673882,18414873,18435076,17491642,16372663,14980143,13024087,10046718,7660677,5820147,3450984,103081,-2749233,-4842061,-7105392,-9250915,-11364605,-13305304,-16444000,-18583023,-20261320,-22062317,-24218430,-25393833,-27858913,-28340807,-28328695,-29793385,-31039803,-30065754,-31372770,-34467800,-39229343,-40731575,-41777584,-39929047,-37463997,-37576286,-37200680,-36655582,-39841793,-42211281,-39991142,-43862816,-42172153,-43203354,-42244831,-41566334,-41560013,-40581131,-40395809,-39429585,-38688286,-38420410,-37076023,-40157413,-35878849,-34644924,-33325115,-33243923,-34035488,-33390083,-31466396,-30849819,-29650589,-29039225,-28915157,-26007467,-21579050,-19637314,-18145359,-16177204,-14573521,-11117805,-10345130,-10957829,-12231302,-10890782,-8596277,-5360770,-2796320,-926233,902833,2623982,3908506,4189888,6503233,8929335,10858961,11115742,11423674,12115566,13621504,14898501},
{-30149969,-29623026,-29493126,-29546471,-28223059,-25267609,-22962719,-22795240,-22207008,-20910021,-21274128,-20289318,-19199884,-18412914,-16670143,-17153917,-21293749,-23928249,-24797220,-21505976,-18282820,-16249039,-12974451,-13434235,-12595482,-11922870,-12949317,-13120628,-13159822,-11504132,-9935668,-9361474,-9129234,-8841158,-8680084,-8462646,-8458705,-8908549,-9571652,-10669630,-11530807,-12629394,-14344813,-15968168,-17893709,-20059181,-22125095,-24086452,-25999781,-28241848,-30164158,-32226753,-33781006,-35568127,-38769581,-40548637,-40327450,-40301918,-40159649,-40027546,-39241776,-39000599,-38760883,-37558502,-37010418,-36990982,-34993484,-33439163,-33128937,-32883358,-32260715,-31059311,-29633280,-27820030,-25231483,-21638268,-17465055,-13123055,-9497501,-7192389,-7444088,-5589272,1911807,20516136,18468046,20137014,21180832,21502975,21687973,21410862,21612913,20459311,19243319,17356651,14661895,11586864,9401449,6961172,4367871,1762715,-1232360,-2593009,-4448914,-6904430,-9332384,-12014922,-13435256,-16836645,-20499773,-22654362,-23975473,-24615196,-25866257,-26941578,-27917049,-28889362,-28386034,-29775238,-31377956,-34444183,-38150654,-39470791,-37205799,-35814091,-35234982,-36204250,-36139835,-37648159,-39569771,-38947720,-40193855,-41315102,-39543114,-40029419,-39399853,-39477299,-38853596,-37805859,-36740177,-36588413,-36304798,-36488102,-35993832,-36065834,-33744499,-32685654,-32405663,-33424896,-33123249,-31163952,-30373220,-29670456,-29083017,-28603107,-26127003,-21403015,-18822405,-17940357,-16206394,-14011373,-10549210,-9374256,-10159497,-11689491,-10925481,-8098911,-4717733,-2439813,-637516,1207970,2226533,3210879,4030822,6589897,8604719,10830468,10916179,11300471,11970681,13581413,14898501},
{-30149969,-29661928,-29639727,-29795633,-28539213,-25610666,-23452875,-23422743,-22980988,-22172977,-22541197,-21067999,-19436539,-18534174,-17849777,-19374035,-23593010,-26011774,-26821247,-23621052,-19735670,-17552050,-15193167,-15516068,-13967891,-12796706,-15296831,-14302737,-14157339,-12647602,-11131618,-10685943,-10188498,-9930894,-9609094,-9656085,-9687609,-10141485,-10831170,-11747471,-12665149,-13793624,-15464750,-17391878,-19066624,-21235678,-23393368,-25253469,-27338818,-29197821,-31012951,-32752979,-33953968,-36413776,-39229713,-40022785,-39369621,-40443741,-40412205,-40076176,-39803886,-39291332,-39276379,-37793034,-37544506,-35146645,-32258793,-31849031,-31204571,-31342390,-30053511,-29046267,-27343904,-25144554,-21956881,-18213810,-13927411,-9992755,-6395467,-5181714,-6810192,-2062201,13598363,22401722,21240557,23272844,23971083,24214024,25138422,25172804,25242420,24551388,22511337,21026865,19087933,16628664,14046155,10814538,7797221,6312087,2932666,1574750,1403276,-2015175,-4075214,-5504800,-10169323,-14656671,-17034012,-19173449,-21723604,-22234341,-23075039,-24857841,-25847248,-26974468,-27253069,-27833775,-29085567,-31034586,-33353848,-35376064,-33293468,-33406509,-34139740,-35509762,-34358356,-34531643,-36540943,-36512890,-36970352,-38653744,-35743599,-37726997,-37357025,-37164192,-36858765,-35590160,-34079762,-34398571,-34076904,-33966946,-33961758,-35367325,-32290367,-32175465,-32181747,-32898006,-32714546,-30539257,-29561571,-29176924,-28916830,-27892101,-25218412,-20647612,-17875095,-17391737,-16109863,-13281141,-9760109,-8689757,-9699827,-11327522,-10905860,-7491613,-4009005,-2215503,-855964,1473896,1868840,2710690,4015547,6684227,8161409,10743547,10711690,11169081,11839608,13538889,14898501},
{-30149969,-29700418,-29784639,-30042603,-28855635,-25954824,-23963503,-24058308,-23760389,-23365101,-23707514,-21806017,-19833963,-18920753,-19387932,-21852259,-25745111,-27609629,-28156555,-25199581,-20801245,-18076488,-16272507,-16585764,-15544297,-15289030,-17527557,-15701314,-14823853,-13564324,-12259121,-11716139,-11514437,-11131953,-10695798,-10783263,-10929490,-11329904,-11868190,-12651971,-13933304,-15016781,-16725235,-18598289,-20604408,-22597553,-24494570,-26382612,-28347694,-30280519,-31810602,-33147858,-34193325,-36589848,-39509186,-39891521,-39112297,-39571800,-39718758,-39950859,-39815659,-39566792,-39062206,-38020088,-36502098,-33896889,-32516037,-31491657,-31206892,-29779633,-27732548,-26669922,-25095737,-22506048,-19469378,-15422703,-9534310,-5474493,-2713840,-2505767,-3338353,1243635,19863813,22399063,23978712,25464773,26856312,27786671,28799541,29297647,29774574,28308170,26474415,24404989,22186008,19712160,17265596,14971522,12808311,10637135,7817937,5530890,4539369,1330038,-2009115,-5332273,-8601983,-10766781,-13439749,-13328023,-17705236,-19505957,-20212685,-21721073,-22920986,-24531267,-24044170,-24588406,-25854317,-28393064,-27979826,-30259453,-27624063,-30584642,-32505508,-33012486,-31305969,-31579159,-33102486,-32700157,-31951077,-33187233,-32311680,-34158016,-34976231,-34553928,-34283104,-33534363,-32336960,-32006008,-32219414,-31847790,-32385284,-32393967,-33467587,-32336304,-28247847,-29368160,-31112190,-29690216,-28359173,-28739986,-28038803,-26628622,-24043324,-19796412,-16952929,-16970415,-15988895,-12829255,-8488361,-8570784,-9474331,-10911706,-10693039,-6843137,-3574107,-2129281,-1077897,1654426,1615890,2318729,4087065,6840283,7767604,10614896,10533720,11036908,11710330,13493699,14898501},
{-30149969,-29738876,-29928724,-30287821,-29167042,-26298939,-24475609,-24716194,-24542519,-24516113,-24752148,-22543732,-20487379,-19728004,-21302864,-24518583,-27764986,-28697897,-28688564,-25961992,-21485939,-18310783,-16738697,-16956577,-16363214,-17396250,-19116928,-17698322,-16135456,-14620210,-13637245,-13016813,-12661825,-12452788,-12118781,-11964534,-12019803,-12455277,-13087070,-13843929,-14983242,-16364180,-17782187,-19528017,-21444693,-23547398,-25448370,-27412367,-29131868,-30892418,-32505230,-33577656,-34738232,-37793705,-40025803,-38991024,-36507664,-37370193,-39116367,-39644558,-39392933,-39088890,-37912678,-37189201,-34587357,-33375031,-33081364,-32246288,-30604403,-28257666,-25613792,-23703880,-22009388,-20138590,-17530924,-13935299,-9542914,-4418426,285928,21519,-869437,7164389,23763166,25167978,26734537,28496336,29529776,31120605,32715145,33402893,33538990,33079308,30497265,28164883,25837713,23096390,21401125,17719259,16392200,13207444,11083612,8858312,5805017,3304460,304477,-2551194,-6074949,-7753890,-9094681,-9424482,-13184232,-15165514,-17215620,-18489426,-19287212,-21300335,-20650639,-21751070,-22415888,-23843296,-23851339,-25462358,-26497002,-28253010,-28399006,-31212912,-28204651,-29728483,-29892769,-28717655,-28020943,-27368977,-29229687,-30944677,-32056431,-32248158,-31903482,-31062248,-30361345,-29712620,-29509087,-29077105,-30073563,-29753887,-30529995,-29502975,-27780411,-26022768,-28963881,-28442141,-27703804,-27498724,-26917755,-25436413,-22763830,-19084036,-16627909,-16560772,-15296099,-12712954,-8502404,-8710311,-9538309,-10709175,-10349689,-6365759,-3270669,-2168494,-976855,1681269,1528572,2075208,4194727,7041178,7501287,10430967,10397964,10917219,11579656,13445929,14898501},
{-30149969,-29777575,-30071999,-30528755,-29469391,-26641636,-25012606,-25397213,-25326757,-25568964,-25658188,-23296926,-21457071,-21011143,-23513891,-27247446,-29628349,-29367584,-28476633,-25889072,-21901808,-18728580,-17167704,-17237106,-17184340,-18331421,-20039415,-19431404,-17523012,-15988512,-14790163,-14167493,-13790008,-13635525,-13432255,-13276661,-13321488,-13561302,-14130266,-14971763,-15993392,-17475058,-19030418,-20655323,-22512798,-24381050,-26341803,-28215267,-30050440,-31710781,-32913834,-34181313,-35319332,-38637974,-39765312,-38086342,-36047279,-37710190,-38863331,-38959362,-38403069,-37642471,-36668583,-34391502,-31123705,-29578316,-30178268,-30672270,-28829590,-26859478,-23790098,-22183449,-19379696,-17252842,-14848171,-12058226,-7836412,-2717897,3350044,2795896,1495653,11967505,26901384,26800634,29110916,31167009,32497616,34077366,35989986,37598026,36736897,36237946,34396629,31966875,29879038,27296972,24367657,21838367,20307358,17866213,14693144,11917211,8736368,6284015,3438682,1583123,-814875,-4822652,-6597523,-6783989,-8892062,-10861377,-13509666,-14812725,-16212982,-17288050,-19144531,-19585281,-19818842,-20569666,-21872900,-22554840,-23911112,-25664888,-25650499,-27507572,-25251764,-25170685,-25066156,-25206877,-24341000,-22829742,-26178980,-27978628,-28346460,-28799858,-28402910,-28323969,-27950491,-27395563,-27271557,-27163870,-27767683,-27201746,-26873968,-26938089,-27355087,-23864414,-26560045,-27934887,-27668705,-26627325,-25870251,-24755180,-21821129,-18252491,-15922165,-15965282,-14411824,-12383824,-9580674,-9042040,-9961833,-10660529,-10014697,-6066056,-3251408,-2078055,-1013191,1467045,1445912,1978423,4329138,7203676,7327911,10229071,10284913,10812069,11457834,13395885,14898501},
{-30149969,-29816551,-30213005,-30766500,-29771257,-26995361,-25568600,-26126558,-26122072,-26516268,-26455986,-24098499,-22732201,-22738497,-25888372,-29858244,-31291704,-29752884,-27778238,-25190205,-22193090,-19570387,-17968708,-17988232,-18180153,-19037418,-20300514,-20620394,-19018763,-17256577,-15989174,-15398793,-15015799,-14946684,-14689172,-14528440,-14617380,-14804559,-15188025,-15966623,-17011454,-18553469,-19988899,-21588474,-23448639,-25333477,-27251259,-28934315,-30686230,-32245491,-33594521,-34776588,-35951851,-38179287,-40284367,-38180870,-37078945,-38373386,-38795399,-38134171,-37003696,-36285023,-33566799,-29983391,-26345984,-24827076,-24755749,-26344147,-26317982,-23570850,-22084112,-20469831,-17105686,-14368877,-11572812,-7930822,-4561888,855130,5859172,5287930,5102745,16338816,27612843,29019007,31647251,33503265,35682278,37784355,39422550,41120846,40334953,40327827,38492859,35694096,33642452,31511320,28552994,26146334,24741150,22604233,19451488,16223621,13589165,10649929,8652460,5923667,3582366,546573,-3469291,-3312253,-5566631,-7783584,-9909846,-11385424,-13128641,-13488032,-15338174,-17102470,-18298576,-19663530,-21547537,-22086235,-23332434,-23192751,-23108402,-22387980,-21233877,-21074417,-19997658,-19028519,-19444237,-20323795,-22519566,-24379068,-25162621,-25427280,-25468151,-25310225,-25530909,-25161144,-25497763,-25416296,-25102806,-25053984,-24218203,-24147772,-25254980,-23525591,-24218729,-27425825,-28024914,-26443720,-24939310,-24210026,-20926615,-17754578,-15373095,-14980194,-14330694,-11570184,-10232623,-9923212,-9915727,-10581409,-9639448,-6035383,-3422691,-1956826,-1229499,1061263,1085599,2009121,4489170,7254256,7283060,10061387,10172953,10716851,11359692,13343950,14898501},
{-30149969,-29855556,-30350336,-31001242,-30069777,-27352175,-26154379,-26895468,-26934860,-27367002,-27183329,-24976896,-24275385,-24799557,-28240854,-32164040,-32680847,-29899729,-26960266,-24353483,-22472345,-20647936,-19128124,-19238630,-19260073,-19013523,-21684084,-21705050,-20614285,-18650969,-17181786,-16535185,-16243639,-16168270,-15878793,-15785750,-15747559,-15938549,-16378473,-17045773,-18032984,-19331388,-20920086,-22507410,-24248102,-26050804,-27757910,-29437820,-31061682,-32616837,-33813309,-35158504,-36225876,-38866428,-40269123,-39861095,-37812565,-38152905,-37998291,-37184647,-36036369,-33498371,-29055206,-25957947,-23791533,-21784592,-20792643,-21403791,-21803040,-21933945,-18740990,-16708546,-14086340,-10141799,-9061948,-5224315,-672703,2416198,6700603,5089268,10344748,21488325,33088669,31253056,34106678,36697071,38872261,40862022,42478909,44191975,44708374,44400509,42595680,40607895,37264610,35182259,31629187,31060270,29015184,26464613,24481943,20456341,17365168,15113897,12603132,9454174,7246709,4458494,874297,261477,-1701393,-4024491,-6095704,-7524866,-9758616,-10162724,-12729356,-14178804,-15651484,-17281073,-18603056,-19101173,-20751366,-20481636,-20632868,-21047722,-17577885,-16777260,-16935633,-16775928,-16350214,-16900610,-19137857,-21041965,-21758818,-21778616,-21983114,-22540682,-23163883,-23059149,-23308716,-23602182,-23315834,-22682739,-22169483,-22506245,-22801905,-22616613,-21624315,-25908875,-28067055,-26323828,-25114727,-23540283,-20462376,-17059368,-15136423,-14214627,-14038823,-11278765,-10499809,-10176300,-9706111,-10421712,-9147038,-6073104,-3344713,-1944461,-1442408,443467,858196,2155951,4671643,7092823,7367275,9920184,10056075,10629732,11291212,13290414,14898501},
{-30149969,-29894125,-30484344,-31230160,-30371298,-27727423,-26757854,-27706993,-27772186,-28158506,-27895987,-25954245,-25984364,-27042475,-30405878,-34031696,-33730701,-29894068,-26368454,-23838919,-22790350,-21633949,-20364079,-20697004,-20451544,-19617260,-22120306,-22710033,-21942911,-19914379,-18484840,-17610088,-17318750,-17097454,-16984858,-17061176,-17013969,-17040833,-17331480,-17861338,-19060062,-20352182,-21709574,-23382296,-25051189,-26672750,-28276684,-29875389,-31248741,-32725513,-34091393,-35311779,-36477295,-38952759,-40003429,-38038246,-35415665,-35776680,-36024212,-35206394,-32920700,-28084856,-24173698,-22829449,-22317856,-21005255,-18852177,-16437603,-14876426,-17920816,-17060017,-14464607,-11676465,-8781616,-8454305,-2616562,1106771,4913704,7700264,4085915,10162544,23879868,34980652,33760193,36977734,39671696,42245865,43774933,45363792,47270016,48974262,49532249,47143692,45486851,42532597,39743385,35037899,33556038,33532482,30873903,28923306,25369474,22424564,19228388,16864193,13698566,12971063,8023095,4848590,3638118,1977212,-384705,-2171651,-4099907,-5642465,-7572662,-7968772,-10535646,-12187394,-13742211,-15070498,-15783899,-17238924,-18041683,-18514196,-18793005,-16285894,-15193752,-15325909,-14367148,-14100804,-14209135,-15742171,-17578938,-17931358,-17587717,-18505491,-19584089,-20652992,-20725609,-21096127,-21320383,-21338202,-20731434,-20737322,-20023191,-21596796,-21352358,-20346878,-23272324,-27857248,-26568005,-24690693,-22991179,-19935223,-17299505,-15009826,-13696210,-13488452,-11799634,-10773980,-9900883,-9611465,-10365814,-8749713,-6061487,-3429644,-2144149,-1511122,-38815,907353,2344020,4869201,6694599,7545179,9781810,9935990,10544168,11243493,13235365,14898501},
{-30149969,-29931726,-30616547,-31453806,-30667831,-28111534,-27372011,-28548717,-28633030,-28910700,-28663807,-27033342,-27763542,-29307461,-32272320,-35421261,-34454773,-29793922,-26162889,-23932840,-23194956,-22305967,-21452850,-22223860,-21687254,-20403595,-22160725,-23279865,-23143133,-21177904,-19729368,-18811716,-18402620,-18110588,-18098598,-17980093,-17954962,-18006609,-18385363,-19099953,-19895260,-21213694,-22307989,-23891068,-25614004,-27192226,-28712324,-30158478,-31455282,-32915485,-34064816,-35146938,-36552586,-38555290,-39121952,-34462242,-32098438,-33327763,-34824890,-31012886,-28959845,-25845505,-21411703,-20311359,-19442577,-18136242,-16265375,-13001634,-12069512,-11792490,-12603369,-13725969,-10148933,-5438262,-5367417,-1117069,3114130,7214705,9949054,6947183,10525513,27616053,33642830,36930752,39801186,42856693,44962280,45532818,47887138,49148838,51318005,52175858,51974926,49408085,47121563,43775284,42309898,36308475,36111038,34899464,32777882,30495878,26790779,23914341,21385284,18329294,16208521,12504603,9341598,6707832,5512589,3713432,1467551,-101614,-1983720,-3541518,-5426062,-7025856,-8860445,-9384990,-11151772,-12351112,-13202228,-14831380,-15270056,-15208562,-14814482,-14676798,-14405909,-12863319,-10759875,-11641757,-12800413,-13649727,-13810050,-13856248,-15324122,-16672167,-17888184,-18375050,-18689301,-18987221,-19145269,-18870136,-18978079,-18607071,-18361708,-18684610,-19152449,-20373823,-26045927,-26327669,-24155067,-22980251,-20601545,-17986017,-15061647,-13125591,-12704278,-11648337,-10873071,-9378156,-9460171,-10058278,-8519316,-6006106,-3773148,-2290929,-1429970,-258767,1087871,2590510,4923010,6103768,7744673,9638231,9816485,10448185,11197833,13178649,14898501},
{-30149969,-29967934,-30747261,-31673956,-30961720,-28509850,-28006336,-29416460,-29534544,-29662804,-29533411,-28231840,-29516756,-31467304,-33808731,-36359795,-34930603,-29680803,-26360054,-24607018,-23715481,-22739048,-22369305,-23719515,-22713734,-20636534,-22844763,-24155214,-24225706,-22310408,-20825405,-19837320,-19147308,-19045874,-18892136,-18871222,-18779848,-18780193,-18967842,-19612154,-20549622,-21511511,-22976822,-24506504,-25910295,-27352564,-28775690,-30324997,-31587688,-32710094,-34043873,-35264397,-36145443,-38160038,-38166653,-32904202,-29912811,-29733843,-31411804,-29944761,-27189287,-23633821,-20525068,-18102753,-17682383,-15921600,-12954444,-10349932,-8520659,-8383255,-7443279,-7220953,-7383868,-6245767,-2995397,1380740,5604466,10486138,12863958,10918740,14033888,31580139,33055222,39304646,42171402,45196522,48560581,50391674,51787292,52993797,52551788,55886032,55510227,53137012,51513702,48167358,46747791,44681553,38261417,38399906,36891266,34622898,30708168,28120867,25451542,22656189,19722454,16621460,13621710,10540393,9292698,8107544,5596262,3795538,2208029,413325,-1654948,-3484630,-5155011,-6178015,-7621524,-8167010,-9481358,-10679151,-11001731,-10846805,-10990536,-11234030,-11404594,-11137382,-9227602,-8874027,-9385141,-9402187,-10392509,-11340594,-12645737,-14282708,-15308109,-15634542,-16007250,-16390123,-16492714,-17133484,-17205408,-16534950,-16747379,-16680567,-16962460,-19415003,-23428743,-24530655,-22587812,-23326244,-20759985,-18520433,-15519833,-13034873,-11698122,-11159515,-10572447,-9270004,-9141943,-9785955,-7885858,-5981261,-3825517,-2333087,-1774794,-348959,1349277,2789768,4759181,5690458,7865777,9472444,9693349,10341559,11136121,13119914,14898501},
{-30149969,-30002554,-30874624,-31887598,-31255177,-28916475,-28636623,-30295506,-30458918,-30443888,-30542143,-29531755,-31179556,-33450436,-35043598,-36981060,-35329601,-29693762,-26861809,-25622684,-24388680,-23194429,-23269400,-25051609,-23792164,-22322329,-24578714,-25341452,-25179752,-23325985,-21818420,-20872366,-20264557,-19955227,-19713087,-19624290,-19522453,-19552071,-19554811,-20218439,-21048172,-22114986,-23430105,-24582281,-26029228,-27420584,-28826632,-30173088,-31236467,-32651527,-34149406,-35291649,-36881832,-38599480,-37518143,-32138447,-28100485,-26987074,-27027437,-26077364,-24331423,-22337795,-19737780,-17409840,-16710787,-16400267,-11571926,-8983803,-7485904,-7767927,-6313229,-3461708,-4818598,-3487431,-820225,3444720,7612384,12068419,14771893,13758612,16641567,35932800,35028439,40528564,44208332,47334553,50336399,52595127,53194576,53094994,54123493,56167370,56704750,55893547,54028625,53127232,52594635,49636036,46112236,42076656,39870361,39514618,36506237,32117477,29837849,26806246,24289097,21081152,18117376,14586510,13422073,12319187,10084415,7908023,6273913,4893169,2621306,1109532,-890972,-2313494,-3381738,-4567703,-5466850,-6091243,-6448446,-6663943,-6717116,-7812094,-7923985,-7770695,-7451934,-6220843,-6075125,-5702325,-6374838,-8017441,-9272058,-11160602,-12435087,-13014806,-13021464,-13659525,-14100795,-14903807,-15077876,-14576013,-13476655,-14032064,-15456693,-19184708,-20659328,-22135801,-20294950,-22464260,-20240574,-18187164,-15592028,-12591892,-11115968,-10881239,-10226578,-9206519,-8936660,-9418576,-7638161,-5959944,-3962180,-1971829,-2224148,-373453,1560904,3040628,4452223,5696925,7871231,9267207,9569592,10237888,11048614,13058739,14898501},
{-30149969,-30035679,-30996471,-32091709,-31541969,-29343002,-29266596,-31163961,-31405169,-31288406,-31694160,-30919792,-32705612,-35218262,-36056374,-37442276,-35856064,-30008261,-27534855,-26683834,-25198513,-23942411,-24223482,-26172026,-24491562,-24398027,-26540430,-26657444,-26143694,-24231125,-22782370,-21782927,-21119047,-20805151,-20526917,-20366455,-20014622,-20204672,-20420427,-20662350,-21472067,-22803835,-23942158,-24932316,-26196312,-27310072,-28646217,-29995354,-31264481,-32766380,-34051403,-35192875,-35918083,-38416348,-37763023,-32485989,-28152189,-26928595,-26526688,-25064865,-23642603,-21094078,-19524546,-17891481,-16563431,-15305883,-10359912,-7917099,-7342400,-6320433,-2823699,-365688,407405,-343977,2203366,6217458,10215899,14287336,16756777,15822519,19694515,33611675,37382332,42860977,46438629,47517578,48278267,53526279,51264652,53815861,53343029,58508247,57320854,55512806,56372696,56588375,52478062,51698551,49768753,50161560,45189613,41564655,38388374,35878269,33287102,31291603,28946215,25323185,22221247,19553965,16542688,15279819,14197390,12282116,10065845,8659105,6854580,4981234,3956549,1849487,934152,-591021,-1225335,-1880515,-2388991,-2425012,-2138384,-3880418,-4370524,-4507649,-3565930,-2814335,-2909555,-3203606,-4255177,-5188594,-6382046,-7457153,-8899964,-9833805,-10373359,-10813566,-11425049,-12530382,-12661821,-12240219,-11586023,-12529478,-15802865,-18632284,-19332340,-19896866,-19468258,-20372059,-19312107,-17794996,-14951518,-12202641,-10803382,-10603475,-9680946,-8958670,-8846990,-8974113,-7613452,-5892694,-3777596,-1724998,-2310286,-281322,1636325,3105532,4209147,5882868,7812644,9027410,9455590,10141819,10935923,12994781,14898501},
{-30149969,-30067612,-31112635,-32287472,-31830770,-29777128,-29885107,-32003868,-32366531,-32198185,-32977329,-32371403,-34109619,-36778706,-36926029,-37872643,-36623219,-30789959,-28321959,-27591070,-26119408,-25027863,-25181143,-27009800,-25135513,-26535723,-28072994,-27745333,-27152771,-25280590,-23648987,-22636644,-21941826,-21569309,-21181330,-20955732,-20924456,-21023140,-20884417,-21252903,-21819668,-23028641,-24079016,-25282745,-26283016,-27485378,-28735575,-29963617,-31067333,-32478222,-33720875,-34765629,-36374454,-38224567,-38294769,-33550491,-29934967,-27635214,-25698769,-24539368,-22380018,-20229818,-18795897,-17184477,-13709135,-11952303,-7521528,-5773577,-5998108,-3352960,761676,3844397,5741839,7277159,8144107,9742056,14136557,18078201,20090261,17624958,28102354,36171616,37340149,44597954,47606361,51024338,51012932,58223049,54979023,55191467,54196312,57114120,54722721,54885326,57761230,59781784,57177376,53349995,52147053,49194809,51077801,47744453,43244621,38272388,33855396,31781096,31092310,27844242,24747475,22452694,20248228,17958794,17352430,16563822,14454222,12094366,10772965,9633221,7257185,5474075,4669209,3028033,2543854,1553281,1443262,1327906,1456580,176194,-910494,-1418456,-628516,491646,-430794,-1463217,-1947257,-2160903,-3070560,-3754051,-4889646,-6440284,-7319339,-8065526,-8626582,-9918893,-10468750,-10428916,-9715460,-11735259,-13562017,-17690769,-18355330,-19303190,-22271152,-18768950,-18520700,-17385853,-14750380,-12030206,-10602634,-10057343,-9042704,-8484946,-8863900,-8591024,-7408322,-5578158,-3572738,-1570138,-2078888,-120563,1654954,2950953,4299272,6063752,7716035,8774476,9348902,10039428,10806812,12927926,14898501},
{-30149969,-30098734,-31224560,-32475178,-32115860,-30217575,-30488886,-32808895,-33322529,-33163731,-34335281,-33838810,-35391598,-38143894,-37687172,-38330307,-37685619,-32082729,-29226311,-28262852,-27044483,-26272532,-25952915,-27443253,-26106319,-28538515,-29554064,-28819653,-28297163,-26198187,-24670099,-23555641,-22788679,-22338697,-21889612,-21574951,-21500475,-21045235,-21194025,-21907043,-22414881,-23207991,-24314079,-25298517,-26317333,-27309204,-28580179,-29880919,-31110044,-32399822,-33512299,-34410423,-35566063,-37868187,-38495464,-34723694,-30620644,-28005636,-25247072,-23886559,-22222401,-20095856,-17758770,-15146297,-11768839,-9015840,-4796129,-5127691,-2320334,767989,4456896,7777737,8553048,12189903,13887933,15725842,19460739,22885612,23246412,23666992,38396725,41070641,37674305,44020039,49879261,55506607,55972958,62336807,64445587,61950413,59826836,57542393,54389885,57125393,58824081,62788342,60236614,55675934,54311676,54688408,51834045,51443260,48644512,37774391,37839428,41428246,42307159,34482235,30047626,24378267,21501553,18388504,19270489,19001537,17718733,15724747,13809367,12176121,10569446,8692308,7854959,6507180,5735940,4788910,4971668,4705822,4363678,4284194,2710903,1464415,2319630,2845606,2062190,1000017,137311,53997,-41470,-321817,-1364646,-3139630,-4141578,-5070261,-5990967,-7196754,-8565728,-9027127,-8739782,-9538885,-12417171,-15670389,-16625999,-17638590,-21668159,-18434923,-18262180,-17204138,-14791378,-11882889,-10605896,-9647614,-8283983,-7710262,-8836751,-8215355,-7107633,-5309476,-3414598,-1317164,-1711581,63964,1634308,2705441,4714593,6210731,7552165,8507907,9251465,9919131,10674281,12858400,14898501},
{-30149969,-30129332,-31332823,-32652824,-32394520,-30657881,-31057720,-33545776,-34251801,-34173267,-35705868,-35274872,-36585598,-39316425,-38346786,-38788143,-38929424,-33803947,-30299767,-28759441,-27860050,-27388857,-26393559,-27577711,-27630743,-30200371,-30710424,-29862383,-29045792,-27298487,-25560770,-24404871,-23632341,-23050306,-22526474,-22147411,-21960054,-21865171,-21922430,-22306288,-22686777,-23656620,-24404154,-25443035,-26403698,-27512449,-28653044,-29828167,-30925249,-32170967,-33190399,-34015404,-35215321,-36695511,-38087719,-34320866,-29684107,-28013708,-25584816,-23402580,-22192539,-19966610,-15933019,-13522907,-10897006,-7249243,-4234964,-2330539,264284,3951671,8827435,10551354,11731033,15691738,19775187,21363052,21762297,25573450,24833603,27689955,34388050,40752426,38240379,48502911,50165447,52794399,57018513,61109573,62974678,59365215,60575462,65966438,58715263,59021843,61254105,61907555,66309151,58308659,56381531,55282719,55143764,54058376,51074162,48116261,44057869,43407913,44804604,45610031,40702515,29896677,22962351,20795359,21516901,26324392,22660053,18268265,16861507,15058699,13471965,12265960,10839410,10137769,9346526,8331216,8240331,7631711,7935091,7588630,6351114,5664416,4466009,4636690,4173364,3435745,2472490,2242077,2360806,1636286,1508147,218025,-872900,-2030018,-3550465,-5034009,-6427284,-7645070,-7405694,-9614769,-10620336,-13611780,-14394602,-14875530,-17954403,-17466141,-17796160,-17290724,-14575670,-11914332,-10934836,-9919136,-7875188,-7116519,-8408895,-7892241,-6869103,-4986786,-3249979,-950049,-1393790,261515,1351365,2341185,5066496,6273366,7305693,8254341,9162018,9788827,10551394,12786813,14898501},
{-30149969,-30159477,-31436066,-32819965,-32667465,-31110056,-31599537,-34204369,-35139263,-35188068,-37017929,-36628529,-37700596,-40287525,-38858917,-39167683,-40151192,-35735508,-31510847,-29170570,-28503929,-28218189,-26606768,-27592964,-28353106,-31282213,-31906380,-30969269,-29739483,-28099415,-26262733,-25187658,-24320442,-23701769,-23220234,-22678343,-22482998,-22363091,-22356073,-22664444,-22946978,-23829048,-24860914,-25637184,-26513617,-27448135,-28302130,-29483307,-30752737,-31838552,-32846718,-33661129,-34420166,-36283085,-37075382,-34028973,-29928684,-27976187,-25794308,-22968029,-21496994,-18075140,-15416357,-12635386,-10390812,-5962156,-3433784,-255472,3474089,6871618,9844842,11789427,14355532,19565725,22409449,25444963,27110321,28762146,29485405,28747192,27160595,35269337,42466404,47330345,51576839,56352722,59366940,61537132,59820911,63326302,61607494,67200371,59300602,61636497,63543190,63768955,65232658,67628799,59068760,53493053,53903091,55009701,53608589,50384094,47832775,42559158,40712883,42306194,38876808,33730446,30334782,27835052,22430517,19200354,14590343,20087206,19728188,17817665,16465298,14886890,13925041,13924506,12561782,11908481,11397187,10791575,10608666,10153570,9573251,9700840,8983106,7149111,6792645,6012968,4952513,4782579,4345986,4065258,3250780,3051494,1946371,695545,-1022793,-2890534,-4417136,-5479006,-5937129,-7672643,-8658578,-11063381,-11558405,-12495914,-14561971,-15678043,-17319859,-17217081,-14620790,-12371027,-11759672,-10947440,-7971223,-6710995,-7663833,-7890185,-6712567,-4761705,-3035454,-600834,-1009498,288720,969634,2450417,5193279,6149531,7070190,8028529,9077065,9664526,10448156,12714146,14898501},
{-30149969,-30188988,-31532755,-32976051,-32929295,-31553202,-32090420,-34772266,-35971550,-36172436,-38198265,-37855305,-38730061,-41029896,-39172733,-39386185,-41132744,-37584808,-32778419,-29646152,-29049862,-28844139,-26915588,-27898344,-28976679,-31763603,-32720928,-31751780,-30770273,-28897219,-26886379,-25898481,-24968138,-24347521,-23861389,-23375349,-23045130,-22823690,-22829447,-23102341,-23197330,-24001862,-24801390,-25535545,-26331556,-27332317,-28061403,-29232794,-30316315,-31394390,-32279949,-32966557,-34015434,-35390434,-36333412,-33195843,-28921947,-26259289,-22927032,-23873371,-20618149,-17047958,-14156510,-12272300,-9682379,-6766661,-3671499,1413414,5099138,7426339,10295099,13925375,17472786,21844496,24880301,27973131,29194841,32273098,34648037,30160553,26799032,32510609,43873764,47514202,51560368,56325085,59209373,57041042,60416096,59150742,54630665,65945564,60548996,64739319,66264038,65934952,65372444,65585114,68201714,61035061,63398540,60124081,55484112,52399570,50668533,41617611,34541855,33553955,32156921,29922062,27679419,25620741,23968061,16385210,17594126,22167351,22671999,20967657,19465759,18348213,17282393,16558607,15965475,15475554,14847118,13924123,13165827,13296170,12554790,12659065,11965427,10877926,9699514,8862166,7728372,6530792,6268488,5737521,5517952,4697831,3973224,2597742,1456146,-921673,-2449075,-3370860,-4062633,-5125892,-6279226,-7940936,-9338107,-11256982,-12574979,-14575321,-16549074,-17314348,-14722335,-13136656,-13368484,-12192198,-8466826,-6421524,-6943626,-7762825,-6586393,-4733373,-2740307,-636224,-686516,-101241,519319,2717969,5105935,5910729,6887069,7826049,8999886,9554515,10371027,12641686,14898501},
{-30149969,-30217478,-31623056,-33119164,-33181160,-31994354,-32547443,-35235832,-36723076,-37100208,-39208988,-38920288,-39651600,-41510178,-39262928,-39416805,-41733013,-39102646,-34038857,-30344976,-29747442,-29586054,-27732637,-28729439,-29413671,-32068863,-33658039,-32476341,-31756418,-29574989,-27643242,-26490858,-25681303,-24928164,-24396021,-23993622,-23682484,-23384846,-23314220,-23323681,-23689308,-24043207,-24715332,-25304989,-26304281,-27088171,-27719925,-28600306,-29780107,-30841627,-31674913,-32387947,-33291260,-34449833,-35496223,-32779797,-26994587,-25438705,-23800154,-21058344,-20393675,-16787699,-13824559,-10801606,-8146780,-6261405,-3058330,1774931,4810567,8047001,11683291,16018173,19962337,24077852,26812984,30217581,32303596,35311817,36567177,31025911,35049908,37459480,45839317,48625500,54604675,55207230,55987728,57683098,61192940,48963276,53380905,67117493,64339386,68087372,68324799,66481705,66634102,70422417,70299477,61368210,63661095,61053696,58103867,53603401,52616146,43982731,41376522,39498325,36000881,32982143,30961151,28773441,26280462,17905832,20788179,25251478,25876524,24156471,22669558,21095678,20387396,19157431,18457836,17830824,17991611,17151409,15997453,15829620,15447258,15163608,14635725,14982757,13586033,11669257,10285962,8873059,7798613,7292378,7193894,7092612,6212898,4678752,3540618,581858,-534403,-1286098,-1655881,-3600222,-4485584,-6126495,-7648897,-9699075,-11541922,-13783607,-16136187,-17363817,-14893407,-14052228,-14923395,-13410835,-9184774,-6391514,-6642867,-7705289,-6226733,-4710447,-2581679,-1119617,-345015,-492335,523414,2966026,4798453,5653723,6721721,7661775,8921481,9459692,10324983,12570925,14898501},
{-30149969,-30244497,-31708035,-33249737,-33421864,-32422318,-32960445,-35588978,-37384781,-37949333,-40013748,-39798084,-40462055,-41725372,-39167728,-39322052,-41937298,-40139969,-35215790,-31386400,-30848270,-30793354,-29241859,-30228201,-30231251,-32917660,-34744751,-33056980,-32320553,-30238029,-28331993,-27265009,-26329552,-25515701,-24929924,-24504995,-24170618,-23760757,-23586712,-23310905,-23579933,-24140650,-24609854,-25166449,-26005768,-26701456,-27421164,-28207283,-29122269,-30102007,-30953100,-31787088,-32620331,-33501305,-34735413,-33002804,-25678963,-23119143,-21721697,-20468239,-17664482,-16152578,-13787748,-10139485,-7093946,-3877781,-475379,2883201,5574302,9387493,13737525,17809473,21854132,25882034,29342066,31890739,34083656,36396435,38794518,36886169,33364437,43962578,46403812,50055786,55136017,55992992,57982052,59435829,63376686,43116161,49777176,68264626,70196777,70025230,68737152,62935078,71890984,72371681,73350792,67163940,63913204,64402176,60607349,45652267,43867062,42177990,44335735,42640953,38359734,35268124,32617378,30599792,28138681,21658459,23240412,27603657,27693306,27509169,25770824,23846889,23015278,21592237,20863161,20853596,20770864,20227837,19097589,18706924,18163506,17672195,17690844,17855762,17037258,14916168,13193590,11527067,10264113,9451461,9360637,9019024,8512863,6825135,5144343,2385503,1599746,889731,131542,-1058946,-1545600,-4594018,-5545835,-8063394,-11008389,-13168183,-15400730,-16622650,-14314142,-13667211,-15407661,-13822588,-9333539,-6811083,-6771233,-7256706,-6148004,-4328026,-2359965,-1181247,-604263,-695836,911107,2975747,4426878,5440164,6550290,7552274,8845868,9375075,10315439,12503415,14898501},
{-30149969,-30269682,-31787432,-33368050,-33649750,-32840416,-33324516,-35845207,-37958378,-38700668,-40621365,-40505966,-41147923,-41713932,-38998348,-39266785,-41891014,-40734386,-36311024,-32830593,-32500401,-32611149,-31361971,-32250359,-31521603,-33375992,-35732628,-33499626,-32661674,-30750946,-28898745,-27859657,-26938587,-26057783,-25449589,-24874815,-24225821,-24021730,-23957329,-23724245,-23555943,-23993320,-24375721,-25022190,-25653780,-26329397,-26888577,-27671692,-28709837,-29511002,-30240143,-31004662,-31764589,-32409138,-33459900,-32997536,-26712322,-21978470,-20440508,-19683809,-18166080,-15940966,-13359429,-10185806,-6214180,-2760358,177616,3546769,6761396,11440000,15572157,19609095,23858208,28749268,33126644,35052860,35854412,37228374,41118885,41648579,36113541,41180634,48342606,50779793,54183144,57250050,58972961,61206509,65315048,44685001,45998196,56913815,61749802,66642143,70391327,64007805,62107773,66687569,69320747,69577324,65581635,55800911,46827705,45581261,46328918,45561871,44756584,42302048,39649124,36828415,34500717,32497826,30518219,26460629,27824671,26683319,28863237,29772446,29164684,27110561,25354198,24412291,23640297,23567303,23141447,22459406,21978386,20789597,20616348,20673290,20204290,19778276,19780331,17546368,15825381,13867929,12465008,11921474,11622806,11082824,10647521,8595501,6152981,4394718,3817338,2679182,2221466,1544557,1175803,-2922204,-3863816,-6744990,-10102377,-12593390,-14538855,-13793113,-11645081,-11458358,-14090323,-13139205,-9419724,-7094469,-7157140,-6612679,-5945240,-3967183,-2190112,-868483,-1177377,-152724,1172997,2853797,4129583,5290775,6375520,7492043,8777466,9290242,10347611,12440631,14898501},
{-30149969,-30292879,-31859520,-33470898,-33859356,-33248985,-33659500,-36020809,-38444729,-39357441,-41062336,-41065540,-41709595,-41569305,-38913651,-39440605,-41807598,-41038712,-37343941,-34593994,-34544971,-34838512,-33777958,-34354416,-33179253,-33713570,-36554321,-34138790,-33475155,-31307905,-29547012,-28630705,-27433435,-26370529,-25662643,-24766113,-24128517,-23562775,-23253260,-23331459,-23423841,-23620409,-23983572,-24804968,-25320442,-26115356,-26484083,-27230885,-28157005,-28921755,-29616188,-30184326,-30971151,-31808794,-32736866,-32628296,-27789131,-21301237,-19154612,-18728642,-17439131,-16256487,-12170105,-8062658,-1928496,-2300351,2079902,6142731,9777531,13683078,17744133,22213593,27404451,31447495,34067772,36668549,37830887,39336353,43558266,45887501,42070110,36869873,44629490,50362637,54330425,57347237,58901859,60011276,61174515,54031410,67895767,64918510,55779522,55865589,62795067,53266487,45954853,51515499,55085526,50582928,50200527,51951862,52053246,51355701,49548157,47168411,45076202,42755791,39888107,38137085,35491642,34211678,32217331,29520414,24987593,25568117,28796709,31413677,30659035,29483351,28778322,27264292,26359051,25943756,25699938,25395443,24272711,23464870,23134007,23805738,23903738,23767536,22300695,19685421,17890844,16096468,14550823,13542086,13516231,12715560,11665531,9743752,7607162,5810678,5595221,4320824,4595852,4511489,2600085,-945467,-2941600,-5729573,-9364041,-12151767,-12647300,-10271638,-8157080,-7837677,-9917519,-10229004,-9177984,-7407214,-7486216,-6201330,-5751959,-3672361,-2031108,-568956,-1265495,368967,1289743,2651799,3945863,5163883,6199244,7439115,8713449,9204247,10424655,12383810,14898501},
{-30149969,-30314180,-31923414,-33558147,-34047962,-33639343,-33962593,-36145691,-38855038,-39927383,-41390125,-41534584,-42177780,-41400627,-39098312,-40025127,-41923992,-41235001,-38295406,-36422741,-36599861,-37000145,-35984806,-36253525,-34755802,-34498310,-37337486,-35154335,-34416744,-31915918,-30373375,-29157267,-27784855,-26688034,-25730385,-24758837,-23951763,-23353338,-22838633,-22746540,-22972376,-23162775,-23775002,-24491072,-25060951,-25872952,-26527281,-27045912,-27678820,-28354290,-28815872,-29331276,-29777292,-30397259,-31289890,-31450453,-27853218,-20998135,-20108961,-20197140,-18364416,-16224817,-12035295,-6768837,460271,309197,3328933,8161347,12442801,15852933,20422268,23366796,28072935,33017681,34594208,37536259,39282528,42313652,45029476,48166679,46463486,34180618,42503269,49252266,53378300,57008259,60004620,57896374,58687069,68148232,73322693,75126404,70245003,60943756,65284943,54459106,59882183,61309383,60732094,59747650,58832890,57517208,55290009,52795967,50316750,47391235,45591507,43185558,40781158,38854519,36477482,35490643,34090290,32181622,28906025,24073166,28231968,32315994,31321016,30184507,30153357,29353497,29125095,27991545,27963598,27855370,27285036,26205286,25819248,24421614,23471479,25633959,25613750,22274698,20975042,18298977,16629240,15541934,15279573,13700990,11617041,10466138,9028453,7664771,7006909,5770556,6627348,6533958,4140604,503690,-2294072,-5003267,-7871662,-11710328,-10621726,-6840694,-5176613,-5132342,-6382217,-6839102,-8207675,-7549613,-6939521,-6187617,-5647156,-3431003,-1593122,-521626,-1135588,483150,1360216,2318158,3791794,5046490,6039167,7396087,8660055,9136274,10548302,12333837,14898501},
{-30149969,-30333879,-31980362,-33632801,-34221951,-34008362,-34238693,-36214802,-39195160,-40436859,-41663986,-41981384,-42632984,-41387150,-39713436,-41086678,-42344654,-41464554,-39101601,-38012440,-38206577,-38478199,-37495323,-37449509,-35347240,-34874283,-38076557,-36152729,-34648445,-32611393,-31006506,-29560675,-28231567,-26852497,-25842709,-24814478,-23863617,-23150017,-22510143,-22317493,-22553358,-22808863,-23279354,-23778196,-24321629,-25073513,-25806101,-26281124,-26971346,-27645151,-28131384,-28542868,-28735138,-29428307,-30170710,-30435566,-26759514,-20441210,-19386545,-18031879,-16534735,-14614321,-12012987,-5220619,3185192,2776321,3877944,9257772,14051471,17503532,23153975,26681250,28898344,30808966,33461662,36830864,42217201,44290112,46159573,49372410,50045708,40866982,42687241,49667191,53020069,55820786,58871326,59996807,63784027,70641922,73788750,73453308,69622681,66881508,66497513,67391525,67725441,66541260,64644829,62218933,60206215,58092682,55526493,52655460,49956791,47621395,45515560,43418884,41586746,39428070,37438686,36026112,35120499,34254612,32691101,28975189,25156492,25870668,29601997,30151867,30686060,30777655,29979675,30691284,29499023,29100527,29282843,29058161,25516237,23140408,23112730,26627789,26059963,23331448,22083549,20886328,18402708,18224995,16743208,15104184,12953996,12001477,10829391,9232247,7830107,7539593,8986646,8565154,6668598,1716360,-1141767,-3427340,-6515968,-11010427,-9445415,-4712369,-3840656,-4228953,-4129065,-4494039,-6492220,-7520250,-6919286,-6269074,-5033374,-3167329,-1297378,-387513,-1137591,397398,1244007,2016135,3600791,4908926,5920095,7357837,8620633,9107601,10722329,12291168,14898501},
{-30149969,-30352346,-32031811,-33692642,-34372940,-34358219,-34501934,-36271553,-39501034,-40907135,-41957581,-42484695,-43129368,-41654419,-40831619,-42594276,-43080891,-41718807,-39671337,-39131474,-39072144,-38978146,-38033016,-37856689,-35822670,-34534420,-38830189,-37263760,-35318920,-33348240,-31428228,-29997948,-28415163,-27065334,-25874678,-24749334,-23694649,-22790455,-22382977,-21979679,-22119162,-22326092,-22724508,-23228128,-23733517,-24296705,-24899281,-25489941,-26107925,-26759546,-27409702,-27618448,-27676317,-28198933,-29095625,-28229208,-23633804,-18865917,-17553961,-16156668,-14417612,-11986281,-10115657,-1568816,3667675,2978494,3638119,11714794,14947947,20018927,24243124,28717674,31978460,33460812,35080505,39069817,42669292,45876247,49356670,52399551,52404137,46543468,45055458,45361046,49883217,54020542,57609730,59436707,68082863,71839958,76024200,72994797,72024933,72242943,70969048,69992447,68369415,66801086,64465645,61948463,59851391,57280483,54933701,52107239,49919174,47711784,46305054,44145275,41553463,39871979,37987507,36482151,35367947,35394794,35261009,33100021,28303511,24225847,24988815,26752222,30197950,31274317,31898834,32232582,31116987,29803335,27317524,26811710,25834091,25029663,23050024,23401623,24346352,24225431,23693745,21980589,20385126,18932346,18196875,15748805,14935555,13527464,12216785,10786965,10200640,9745946,11031045,9694766,8178050,2440207,246337,-1925718,-4871466,-10276170,-9187167,-3846418,-3911717,-4733534,-4308201,-4759095,-5403657,-7023681,-7078490,-6413749,-4811038,-2923190,-1125545,111835,-758127,2752,1044660,1779815,3418007,4779069,5821745,7317040,8587561,9121642,10953509,12255869,14898501},
{-30149969,-30369884,-32076874,-33736141,-34499660,-34686588,-34753017,-36309628,-39769913,-41378136,-42354836,-43105808,-43737064,-42298622,-42432144,-44406609,-44025307,-42003773,-39948544,-39726818,-39275238,-38579803,-37738403,-37958950,-36372330,-34954071,-39371998,-38062164,-35852478,-33831196,-31920509,-30310705,-28551460,-27134403,-25828777,-24598242,-23503513,-22783226,-21979197,-21695181,-21748505,-21783497,-22118196,-22551569,-23009588,-23491476,-24033943,-24485014,-25009010,-25856470,-26187767,-26780125,-26614115,-27052481,-27817646,-24761600,-21578312,-16455667,-15008369,-13009374,-10134217,-8972658,-8457131,256571,989347,3246048,4761552,13361816,15866088,22364885,24349741,28514479,32280106,34641624,37084068,40896935,44862373,49380711,52741627,55066879,55575428,51793648,46977287,41656097,34961723,43147118,56714619,58412205,68764389,74436089,75814095,73926247,73879250,73551979,71630836,69759010,67575638,66134735,63992077,61221451,58941536,56657063,54475323,52021439,49978416,48189762,46090820,43992702,42019577,39991283,38583126,37313728,36155056,35897320,36797527,36621326,33964588,29263136,26018944,24389435,25601358,29158476,31236650,33004833,32194836,31146692,28117958,27477695,27481443,25129692,23883757,22841770,22619944,25248322,24463850,23285530,21909153,19745358,19170837,17555920,17047634,15945802,13934227,12829620,11651966,12316371,11890860,10429491,8435218,3777333,2110327,-357698,-3047197,-9012173,-8528048,-3450957,-4156318,-4388839,-4673387,-5035427,-5402042,-6527731,-6691637,-6024692,-4593696,-2534830,-997046,448960,-375001,-378500,758500,1603600,3269727,4640503,5722469,7273999,8532818,9172682,11245058,12227751,14898501},
{-30149969,-30386616,-32113056,-33768158,-34609653,-34994980,-35010292,-36358204,-40029915,-41864693,-42880676,-43879711,-44500751,-43327396,-44336910,-46248680,-44963558,-42292198,-40036991,-39963535,-39233402,-37906216,-37030602,-37928169,-37017094,-35696568,-39920956,-38534027,-36193840,-34237434,-32401367,-30476515,-28669039,-27178667,-25760885,-24591082,-23450748,-22446611,-21734034,-21261826,-21302816,-21175896,-21535839,-21918293,-22390701,-22814280,-23204571,-23673769,-23961418,-24633629,-25260344,-25346672,-25421167,-25822842,-25905203,-22091648,-18197218,-14388096,-12072264,-8794481,-5693247,-3949854,-5692702,236090,1538438,4700092,7265185,16044258,18673569,23952595,24908979,29031948,33251549,36785000,39419708,42868622,47993168,52023518,54414608,57736660,58071102,56200634,50979671,46322006,44336704,49072170,54533878,63916744,71023277,76157066,71983192,74549431,74219254,74254974,71392265,69962517,67251747,66318146,64513596,61195274,58533363,56265541,53925392,51705189,49761375,48554764,46589661,44241394,42402733,40614426,39212543,38119072,37240559,36997204,37279156,34453773,35544823,33264671,33299103,28390606,26904669,26594124,25821163,30869709,31954245,32827919,30163792,29082830,28192970,26163317,25171829,23849417,23118450,26234243,25302244,23741051,22649517,20609791,19433456,19251459,18549900,17436813,15828363,14833254,12966711,14409551,13020604,11529787,9964280,5371935,3364445,1068956,-1470693,-7348665,-5819096,-2401036,-3831531,-4354657,-4342936,-4719962,-5527241,-6043558,-6036327,-5197076,-4012459,-2155337,-787595,814406,223015,-630078,520592,1278127,3109504,4522653,5650566,7248621,8466372,9260085,11585974,12206613,14898501},
{-30149969,-30402447,-32139652,-33788288,-34692898,-35279346,-35281200,-36448158,-40283676,-42393066,-43572884,-44828194,-45437767,-44659889,-46319920,-47857048,-45736992,-42593758,-40114338,-40166737,-39507206,-37621181,-36468933,-37978031,-37869583,-36689411,-40434731,-39276112,-36456665,-34586121,-32578960,-30514668,-28698404,-27129698,-25619196,-24411034,-23275421,-22334505,-21508402,-20789621,-20734411,-20650570,-20905439,-21277647,-21579897,-22057047,-22466200,-22879461,-23097126,-23244389,-24074339,-23946518,-24118505,-24326269,-24000637,-18852654,-14240762,-14175723,-12090487,-7035417,-3048263,-701751,276017,346028,4279660,6595239,10020897,19611879,21157667,26142153,27567390,31380003,35209305,38074303,40879734,45093517,50489094,54457134,57105606,59623135,60886497,59968731,58936401,54379707,52590443,58807995,66902443,68298172,70406311,79084572,72883163,74542015,74405792,73489029,72343224,71106636,68995926,66439316,64104492,61780716,58385292,56014561,53993950,52182804,50173615,48819195,46488956,44569225,42730640,41257076,40015118,38999512,38536396,37804943,37389221,35188213,36438004,34686993,34941189,32832245,31735088,29382900,31169298,34499107,34367851,35555458,33437996,31634768,28855133,27767286,26246700,24939627,24031057,26462208,26284729,24492542,23172447,21621504,20222137,19738541,20014914,18424133,17879459,16572195,14330394,14418815,13849978,11874629,10152472,6935117,4051116,2338869,-454252,-6168563,-2603225,-1443800,-3012030,-3638028,-3687112,-4039268,-4960090,-5258017,-5360192,-4514176,-3524065,-2188392,-987803,856801,817483,-694404,456883,896453,2959979,4421865,5601146,7200651,8403921,9373048,11946813,12192534,14898501},
{-30149969,-30417103,-32159065,-33792427,-34757027,-35544025,-35563118,-36578526,-40552906,-42952808,-44388542,-45931446,-46518307,-46181248,-48124096,-49016140,-46265671,-42979763,-40512375,-40703259,-40393570,-38232582,-36484177,-38130566,-38785019,-37954926,-40745274,-40279381,-37068119,-34944183,-32771927,-30628408,-28718130,-27047634,-25574959,-24427683,-23224907,-22130243,-21159637,-20468307,-20182671,-20102392,-20252186,-20500214,-20765568,-21184517,-21465042,-21790737,-22083075,-22083681,-22389067,-23070919,-22312878,-22566967,-21200642,-14406195,-11149860,-10469796,-8727392,-5372596,-830673,2166009,3703051,4420700,8082301,9532248,12809212,21645012,25084360,27929308,31074299,34374748,36995304,39168674,42953892,47069626,51595715,55154747,57016315,59022808,61240398,61807049,62944164,63616257,59502045,57719109,66708458,69217751,69344032,76836311,73118484,73305756,72572655,72133011,70383492,69214455,66478294,67803818,64199799,61155060,59051010,56399250,54160141,52463528,50695091,49460083,47189049,45540791,43705219,42144390,40843227,39849728,39680191,39166000,36887115,36841564,36104649,35154415,34820755,35640640,34281681,32722321,31805323,35003716,37723053,36352379,33708935,31515514,31431225,30298405,29246225,26021872,25358282,28266850,27030771,25563686,23644026,22793766,21015987,20183931,20875957,20508675,19087145,17853155,15933916,14765610,14325033,11916589,10646042,8016415,4715638,3022079,154811,-5280639,163423,-108698,-1563586,-2648242,-3175379,-3532262,-3929859,-4503538,-4936848,-4029592,-3033790,-1826482,-1193385,523948,956454,-671421,480967,723792,2800007,4298139,5566633,7140882,8336345,9464459,12288669,12186129,14898501},
{-30149969,-30430244,-32173908,-33785549,-34800156,-35779549,-35852791,-36764965,-40871181,-43558296,-45332272,-47142033,-47704159,-47722080,-49563747,-49621414,-46504734,-43528820,-41499859,-41738777,-41723766,-39580841,-37234417,-38599655,-39630096,-39221302,-40925056,-40294998,-37512257,-35115818,-32829315,-30635101,-28830061,-27079657,-25482952,-24292845,-23057804,-21941397,-20950270,-20150188,-19684090,-19444336,-19525743,-19724928,-19906483,-20262978,-20396383,-20672073,-20739985,-20896673,-21012991,-21495153,-20592747,-20596910,-18350935,-10433051,-7883090,-6424851,-3457840,-2270273,703715,3926402,5235710,7114652,10026974,13654071,17221752,23968147,27441481,31031603,33105953,35686741,39239738,42714840,45707104,48630779,52187359,55628761,58984028,60189987,62526409,63963467,65910927,66731995,66551605,67728264,70638329,69398270,71724197,74266319,72739761,70885147,71574677,70708214,69962036,68521080,65829109,63224953,60840103,62383980,59692413,58227036,55294167,53614208,51844669,50311886,48568756,47125866,44721191,42975986,41769539,40868950,40212303,39539516,38144680,37129917,37735649,36841927,36569889,36027790,35637177,35179649,32823765,34337727,37027153,36793682,34926224,32947861,30647951,30280462,30180187,27196400,26221996,26811028,27886610,28327822,25045849,24109779,22029463,20920740,20974031,20590405,19323538,18710527,17212713,14990637,14369367,12739208,11027074,8537876,4908663,3305267,787639,-4170632,1640521,860722,-204879,-1771893,-2623500,-2891273,-3009536,-4240980,-4226281,-3530941,-2369901,-1576184,-495021,172196,1059258,-560089,428274,838029,2643946,4148893,5527499,7057839,8279783,9473312,12579778,12188658,14898501},
{-30149969,-30441605,-32183357,-33770874,-34815689,-35989883,-36169140,-37008240,-41210499,-44194958,-46339371,-48394341,-48919029,-49153095,-50512337,-49739788,-46640564,-44367371,-43135445,-43277191,-43148518,-41150906,-38476562,-39225769,-40258846,-40067802,-40918758,-40388577,-37828842,-35186646,-32887600,-30682936,-28733076,-27056438,-25582521,-24229778,-23013872,-21750015,-20585526,-19725447,-19107435,-18807766,-18807762,-18999153,-19044540,-19292727,-19413887,-19495117,-19598576,-19536198,-19388277,-19673172,-19112047,-17845726,-10558089,-6534182,-3943719,-2315884,87406,1078884,3120249,5497665,7791825,9097231,12757445,16871773,21966074,26773743,30028946,31984310,34374920,37321609,41147572,44834381,47779320,50986874,53791172,56962086,60523617,62118996,64798668,65731972,66273804,67243950,67538033,67545044,78268814,69400665,72594078,76285744,67968491,70663986,71194046,70112427,69021034,68491966,66968040,63419842,62320335,61070080,59681156,58038986,55820957,54106865,52320358,50733028,49244286,47738293,46425049,45093628,43424011,42060028,41110767,39867313,39112545,39573723,39436691,38543446,37987690,37663200,37185806,36795517,35060402,34082817,40406704,37070477,36463230,34885212,32415253,31397774,31209900,28577375,27327774,26162226,27511845,29537409,27633230,25123022,23348339,21445084,20481461,19617086,18207644,17062847,16199064,14777687,15176536,13804559,11485492,9638887,6004612,4723973,1809240,-2329934,2646277,1351200,1150432,-1319690,-1709216,-2003452,-2323914,-3758607,-3612462,-3113394,-1753634,-728613,20095,63519,1128407,-273055,278605,1078374,2563514,3982459,5479475,6962770,8234737,9395783,12806707,12201922,14898501},
{-30149969,-30451082,-32183712,-33742611,-34815174,-36172256,-36495979,-37310982,-41579063,-44852821,-47347046,-49612457,-50090096,-50360516,-50969597,-49549431,-46842880,-45445103,-45221779,-44997635,-44057133,-42227859,-39721790,-39918777,-41111824,-42170929,-40606472,-40766994,-37765419,-35163960,-33091221,-30791412,-28667797,-27074297,-25569582,-24048767,-22672029,-21492018,-20164282,-19215506,-18577208,-18213799,-18162836,-18219486,-18306660,-18434906,-18497576,-18477066,-18394735,-18317266,-17864037,-17889515,-17173698,-13739363,-6667360,-3941693,-1721667,691493,1958437,3588712,5748044,7468491,9229259,12038302,15097471,20017088,24482773,28350245,31605846,33971195,37092625,39521030,43673485,45710724,49352051,53206463,55552589,58159100,60831333,62547752,64310791,65760582,67985390,69157303,69307426,69702042,83921036,75956940,73803429,72788490,68593224,71031097,70664925,69487030,68439034,67297661,66320641,62733875,65468811,61896290,59877018,57897045,56049053,54616230,52923923,51194893,49892296,48730183,47545174,46434906,45562386,44656666,43885014,42640003,42096512,41316456,40470829,40113537,39709087,39068211,38253239,37636929,36872429,35425751,36220573,38241489,40579552,37501003,35928722,32716679,31704262,29721409,28253153,26971445,26572649,26951445,28508074,27885981,24991346,23009470,20780905,19492130,18372881,17363796,16061426,15474277,15219166,15050296,12619520,10896499,8483524,7572267,4352099,750045,4124018,2531202,1324380,-584275,-503995,-1549194,-1810852,-3080413,-3129265,-2778357,-1537695,-95245,523505,338893,1154062,132147,-7319,1340352,2498225,3791754,5399400,6894238,8209049,9304434,12972790,12227902,14898501},
{-30149969,-30458792,-32172756,-33702599,-34798771,-36339039,-36823830,-37654873,-41987888,-45511944,-48301540,-50741173,-51163185,-51322781,-51104290,-49344734,-47264759,-46647728,-47434040,-46527828,-44162376,-42384315,-40524372,-40534592,-41923351,-43180721,-40603725,-40845695,-38406693,-35182644,-33026855,-30731588,-28548113,-26872873,-25279444,-23674276,-22234808,-20870567,-19808708,-18800604,-18067869,-17601950,-17451239,-17412001,-17489491,-17541004,-17622253,-17627367,-17542919,-16968479,-16637875,-15907043,-15325826,-7906596,-4596173,-1746405,1240694,2693831,4329229,6524428,7947076,9795633,10896549,13943938,17186541,21431496,26219957,30726013,33734009,36224758,39097736,41716347,45447685,47591217,50160572,53025524,55725040,59169960,62477364,64194603,65529175,67470276,69267555,70238167,69731804,70223328,84613258,74939064,73770653,69491150,69985779,70705887,70154472,68792488,67713593,66814484,65816780,63989990,59585243,59571392,60632324,58523357,56186298,54863270,53189144,51966164,50844383,49501442,48559120,47572952,46680923,45996311,45396931,44537636,43973961,43299545,42317539,41537140,40846783,40087391,39296932,38673496,38293575,37197781,37581326,41490208,42775475,40070114,35401997,34473286,32663769,30528967,29125946,27968561,27359997,25547548,26309700,27251635,25576828,24078238,21857031,20329882,19392763,18107391,16769230,15875669,14981181,15436438,13854808,11632532,9890616,9085028,7162856,4843104,5338545,3334294,2783988,698399,1262308,-666382,-1479487,-2725039,-2624499,-2379073,-1300143,453236,1590545,1334177,1219226,584130,-187010,1659351,2444970,3630301,5320419,6870064,8215393,9270171,13088629,12268184,14898501},
{-30149969,-30465014,-32152496,-33657196,-34773273,-36471142,-37167778,-38013649,-42389355,-46153442,-49155575,-51714653,-52114166,-52068317,-51097095,-49380951,-47989620,-47768715,-49279232,-47642414,-43593170,-41730865,-40787457,-40994911,-42058380,-43602879,-40802876,-41184326,-39041775,-35196613,-32979359,-30488768,-28341616,-26553305,-24881922,-23329073,-22016069,-20827761,-19573675,-18546545,-17734184,-17337416,-17131617,-17053051,-17133476,-16971397,-16782541,-16519901,-16437656,-16071640,-15330719,-14553617,-11567547,-6090089,-2998591,633349,4158162,7188262,8224809,10510407,11505384,11428657,13298770,16003700,19735941,24110043,28314302,33175842,37370171,40159874,42986305,44706902,47451790,50241104,51555119,53180431,56284996,59509171,62736935,66182854,67486214,69251862,70843422,70794365,71038887,72767723,83127136,74456032,73842476,69368813,71392982,70976677,69794769,68562981,67455589,66484802,65018547,64249603,63503208,60960449,56710682,49944420,54056202,53559780,53352283,52304501,51162788,50493515,49685928,48881451,48210613,47838745,47135860,46732121,45718227,44542202,43416225,42546799,42645313,42396584,42197937,42157303,41223312,40552391,40161007,40175812,42130341,42855747,37866096,36766697,34483646,31979782,30236315,28869600,27378466,26602106,24624056,25115871,25769165,24327803,22814629,21869370,19982855,18422043,17405138,15651300,14791199,14707834,14651011,12726569,11015694,10268414,8425117,7029403,6083442,3971511,3872071,3107242,2080102,130017,-950995,-2294569,-2433447,-1849625,-828134,813765,2024436,2033702,1249026,1287489,-125954,1955025,2542125,3647370,5319269,6887758,8282068,9302348,13164465,12323294,14898501},
{-30149969,-30470093,-32126842,-33602879,-34731468,-36578556,-37499760,-38395279,-42777470,-46773239,-49889442,-52514019,-52925865,-52674469,-51175396,-49771217,-48964424,-48656723,-50445274,-48238705,-42873199,-40887589,-40788227,-41309231,-41979084,-43949368,-41244991,-40988953,-38871372,-34970295,-33108303,-30293985,-28440504,-26812826,-24874479,-22767666,-21024687,-19874159,-18617949,-18609295,-18426163,-18155861,-18049961,-17705757,-17528687,-17148979,-16588821,-16004677,-15908283,-15483283,-14819982,-12990316,-7774899,-3552063,-792428,1429414,4094256,7297945,9307873,10114444,12619789,13425986,15038075,17576086,21064398,25930752,31439213,35848770,40342381,43922428,45878872,47221012,49625927,51800274,52915279,54368347,57829887,60639629,63102619,66664124,68975533,70843468,71842155,72732231,74121605,77364449,78592278,75813736,70707726,72261604,72311790,70996361,69405518,68011787,66778229,65732307,64241882,63736305,63095005,60893967,60494263,49953087,52753014,53089146,53020500,52409016,51262512,51027473,50185394,49582542,48981960,48459000,47781445,47261868,46159348,45936222,44742672,43952656,43631012,42476063,41779430,41868752,41168335,43119553,39788403,34650070,39099415,42707417,41351196,39449940,37678062,35034611,33965973,31294548,29771915,28350698,25591652,23817251,23386055,23484404,22681040,21670538,20087564,19000414,18064703,15601356,13957256,14502188,14533754,13164463,11675722,11173068,9438399,8607025,6581574,4658114,5091784,4149885,1946246,948286,-354350,-1753777,-2270161,-1170442,-296362,880238,1943099,1807465,1282538,1834758,119005,2182466,2746551,3906212,5459975,6970500,8417929,9386845,13208097,12392127,14898501},
{-30149969,-30474325,-32097198,-33539261,-34681870,-36661892,-37816689,-38774532,-43143524,-47360088,-50471973,-53119415,-53615513,-53220509,-51496616,-50552906,-50108376,-49232334,-50845844,-48487682,-42620926,-40618385,-41048355,-41696098,-42462730,-44165764,-41888706,-40990726,-37745232,-35171741,-32812840,-30183062,-27836193,-25979298,-23798086,-21905775,-20520735,-19594673,-19121368,-18549242,-18002560,-17687529,-17465498,-17129051,-16988274,-16660158,-16060545,-15452600,-15268981,-15072538,-13499544,-10142548,-3878289,-751662,1302193,2408817,4332165,8532866,11880107,13346436,15106622,16292629,17603632,20010811,22797916,26948486,32499783,37556107,40867962,43506748,45021954,47711262,49794434,52133614,53723175,56303394,59076462,61268959,64028374,66731133,70098251,71714180,72804092,73076614,74077133,82159851,77410606,76926590,70991287,73254425,72515991,70819626,69499001,68212639,66767479,65470856,64611328,63307571,61986679,61111179,55575600,42544350,47262302,52476803,52564903,52301102,51690800,50787453,50179405,49464657,48876656,48380268,47831802,48002739,47630825,46632164,43586277,42062172,39739239,36162380,34267761,34911846,32760521,33520863,25091919,22589144,31441370,38887669,41402027,41348881,40573513,36147961,32977745,33413826,30548786,29250597,26438427,23680157,21704554,21639765,21011063,19946075,19851965,18708626,17122679,15306203,14375910,13921142,13144402,12618857,12130964,11155588,10000806,8604960,6421803,5812939,5553872,3019516,1721610,346818,-607802,-1312244,-1602993,-499811,12982,1152456,1837977,1854118,1400274,2093044,483268,2157582,2950262,4318310,5692257,7066947,8573370,9531399,13224192,12471623,14898501},
{-30149969,-30477852,-32061302,-33473610,-34631733,-36727627,-38112072,-39137028,-43477493,-47897324,-50913559,-53551216,-54230865,-53796082,-52135098,-51654305,-51362537,-49675175,-50694504,-48642490,-43205898,-41325584,-41920444,-42427578,-43294773,-44202900,-42789341,-40658306,-37533787,-34736702,-32308010,-29675907,-27114515,-24953806,-22968105,-21258537,-19841986,-19009998,-18549566,-18032099,-17588444,-17154818,-17104198,-16580055,-16391121,-16120481,-15565084,-14865275,-15096532,-13878803,-11636187,-6411494,-834951,2130864,3248128,4141947,5718073,8561852,12878134,15101049,17286848,18761095,19511137,21873592,24102541,28332907,32178307,37335751,40695988,43527428,45543282,48766136,51386101,53850765,56029854,58039570,61194565,63678493,66463287,68999641,71619591,73116669,74392334,74073051,75262085,82112228,76733887,78368111,73401886,73752792,72415436,70656532,69398926,68282341,66964760,65765190,64671425,63907417,61856339,60469742,54132572,38778221,45824558,53388233,52609211,52198879,51592319,50774437,50064846,49421127,48970528,48429211,49132927,47339386,44035717,42157982,38976646,46137012,49651249,36731125,25054153,19313875,15835252,13963346,10504526,12808678,19445728,28573198,35628624,38476982,37491669,29283424,22489510,30320650,31170355,28266821,26338890,24877712,23525415,22539936,20974743,20033159,19259960,18371613,16433022,15939755,14863141,13900430,13195091,12693262,12467371,12211977,11130129,8505459,6676435,6883869,5642710,3312872,995552,704325,-662019,-967234,-1234432,-576065,218188,1176550,1731279,1937640,1568909,2171452,947484,2191044,3161930,4674497,5928487,7165310,8831919,9752295,13211347,12556849,14898501},
{-30149969,-30480639,-32016636,-33404591,-34566925,-36760067,-38372562,-39461292,-43758556,-48380013,-51230389,-53817139,-54767086,-54428825,-53060009,-52929379,-52639023,-50228859,-50457371,-48944080,-44617565,-42850468,-43422913,-43631153,-44150764,-44460583,-43831440,-40080757,-37113865,-34581074,-31807934,-29302450,-26896475,-24589571,-22523993,-20736984,-19401386,-18477840,-18070972,-17591518,-17116407,-16746349,-16835541,-16489237,-16011597,-15782690,-14983335,-14738283,-14320615,-11541323,-7356593,-2634580,1395124,3627182,4491877,5985325,7912499,8963715,11852864,15868138,19018435,20074976,22221592,24363308,26605444,28985100,33038197,37525505,41583561,44448811,48417728,52882374,54137436,56853359,58994911,61521774,63615425,66719437,69222206,72051193,73588005,74252113,74458344,75308868,81176567,80900017,75973579,77461617,76172966,72570206,71967110,70068451,68129639,66635292,65884911,65070107,64060577,62646736,61727737,57699764,52269432,41973064,49009125,54333405,54272804,54153778,52953552,52336899,51958500,51234917,50151512,49061954,47017838,39931549,34613293,33004997,35666149,33798008,32653683,23235832,22894653,24108801,24433725,23627962,22653011,20555277,16684284,16917593,24604364,24952892,23853899,17264555,21112423,29934664,31826595,28041351,25841148,25475012,22779249,21883337,21546852,21341330,19071505,17997272,18248440,16661266,15275846,15097878,13380760,12440108,12535395,12477987,12029621,8856341,7548167,6957230,5489224,4605660,535434,761510,-474506,-790234,-877556,234472,393824,1073180,1562154,1739371,1727488,2202925,1253909,2030950,3237333,4725771,6208025,7329098,9254769,10053695,13159945,12641510,14898501},
{-30149969,-30482491,-31963949,-33329449,-34504181,-36776691,-38593285,-39743607,-43981361,-48818035,-51418301,-53943230,-55272690,-55135860,-54181782,-54211281,-53863621,-51123871,-50577705,-49522495,-46516216,-44789158,-45244957,-45123486,-44579803,-45137852,-43979675,-39907421,-36974884,-34292049,-31563625,-29007269,-26568512,-24352047,-22416704,-20550907,-19146759,-18321295,-17807262,-17564348,-17166822,-16585583,-16202448,-15981838,-15383245,-15016474,-14760634,-13806343,-11513898,-5453450,-1826313,-653227,3046040,5273320,6368618,8048501,9694263,11392163,13021234,16486874,20616709,22713882,24793234,26622784,28610252,31937887,35011532,39335922,43466896,46773548,52116020,55792549,56829754,58484844,62191669,64043625,66745560,65974823,68804764,71933998,73722260,74081711,74354675,76895752,83381279,77516556,75362953,78593376,77738007,73018440,70653366,69169121,66945023,65616241,64709526,63751694,62839130,62648499,59670551,55031071,53439072,46890038,38177727,52408188,54962677,54909946,53989498,52756134,51385403,50176208,48717949,47608116,43039116,33651356,28220652,37423286,39712387,32946854,30256378,30351088,29943136,28798071,28223957,27363695,26573969,24101154,22232283,18729351,16809750,15500484,14851609,11494150,14823765,29177357,30880974,27781115,24677797,22662968,22353642,21057409,20907099,18655043,17883224,17628130,16702957,16095188,16479227,15426279,13775815,12954458,13912714,12972652,11803240,9419525,8526406,8034135,5945001,6831998,1573356,1324644,-95228,-614514,-379084,391894,709518,933050,1283717,1464748,2018037,2199217,1415291,1900825,3036991,4570804,6574360,7551303,9710827,10410531,13056365,12718834,14898501},
{-30149969,-30483158,-31906639,-33254379,-34436329,-36757626,-38762997,-39962387,-44144070,-49184704,-51515575,-53961884,-55741966,-55871796,-55347778,-55354733,-55006573,-52415531,-51265488,-50371181,-48463722,-46641376,-47098492,-46700329,-45012428,-45380894,-43488907,-39533192,-36921803,-34046024,-31198460,-28694122,-26322311,-23860514,-21790607,-20112000,-18969921,-18124559,-17659071,-17270901,-16950979,-16663500,-16221264,-16409975,-15261015,-14765160,-12667150,-8607242,-5725745,-2604440,-1482518,1101933,3955852,6536122,8020967,9705794,11891672,13792974,16194778,18439323,22292543,24480577,27349926,29616203,31373604,34897846,38420387,42430046,45869606,49833225,54986866,58065243,60090874,61514576,63470222,65478828,64718231,64729828,67163300,70315979,70699120,74235374,73687859,76156769,81100357,70237579,75453629,78887566,78137901,73346352,69405785,68030525,66251656,64849579,64061768,63023899,62656231,61318703,60279476,55769085,56164486,51713512,35656021,45754002,55798325,55043728,54075890,52333710,50280205,48182323,46583904,43804379,32913944,26594145,35906326,38618179,37832188,35795212,32616470,31662516,29933233,28258120,27939146,27116652,25637779,24054924,23251389,22846394,21560619,20001011,17212690,11409953,11861301,29100651,31083185,25625002,23003820,21274958,22165764,21156088,19388971,17605730,16573477,15755952,15507586,16010845,17563074,16351894,14264892,13629546,13953343,13536382,12121746,10671204,8602034,8799006,7342902,5041488,2423730,1679385,527833,-285364,-34424,406760,902560,848754,1105480,2005897,2389176,2193138,1526549,1695711,2792577,4386282,6913368,7843773,10114697,10741759,12892753,12782642,14898501},
{-30149969,-30482424,-31847000,-33180077,-34370621,-36724548,-38872471,-40121460,-44236729,-49487232,-51537731,-53885281,-56159649,-56550003,-56401508,-56268826,-56019028,-54009140,-52438866,-51370266,-50166229,-48148525,-48476906,-47906311,-45089771,-45506001,-42616669,-39500839,-36777901,-33984413,-31148241,-28370544,-25797438,-23530054,-21706532,-19902031,-18625402,-18734205,-18735651,-18385590,-17807501,-17078653,-15667913,-15043475,-14024672,-13373603,-9249051,-5358269,-1481604,-1644021,-846696,2337531,6606031,8968918,9783177,11878509,14319033,16328533,19541357,21826111,24374567,26458561,29193855,31829332,34709648,38032204,42175446,46233952,49292400,52578453,55947727,58667294,59466270,61769230,62165829,62639141,64476875,65977913,68093513,70352776,68885605,70640114,75403175,79671005,72564423,68029533,77273178,79124359,77716888,72486687,68225311,66940384,65493546,64235191,63090614,62015541,61412697,60381256,59569160,56578232,53719162,51083042,41891384,31227306,43593399,49997017,53616978,48486069,43964020,41628937,40588566,35131413,26087849,31479605,36817989,35885914,36202999,34168934,32835426,30189625,28124895,26260298,25808887,25284939,24700390,22353083,22453665,22401205,22751385,22351021,21052162,16442968,9022448,20790670,30935589,25154682,22786484,20277811,19739754,20101963,18762108,17475552,16489563,16046253,15940843,17114103,17763533,17204325,15347062,14265409,14215672,13379732,12426530,10613717,9340374,9719412,8664275,3250037,3110344,2065682,1242131,319950,147961,635392,923884,1032729,1356189,3054347,2663636,2204515,1694505,1601517,2687367,4208871,7041539,8230492,10416043,10943394,12674151,12828375,14898501},
{-30149969,-30480204,-31783983,-33102570,-34319096,-36659618,-38944962,-40230968,-44246078,-49705063,-51475887,-53727348,-56504208,-57087341,-57205044,-56925629,-56857098,-55607601,-53827309,-52347557,-51545349,-49491364,-49443600,-48728977,-45183327,-46052261,-42463669,-39509571,-36528606,-33401779,-30668747,-27939230,-25810749,-23401606,-21343277,-20698469,-20283922,-19837105,-19263309,-18375925,-17998577,-17046124,-14791228,-13455001,-13683506,-12912877,-7518572,-3908465,-798151,-816104,114367,2066005,6425469,12827892,12018929,13698338,16979324,18929756,21663637,24641796,26181355,28336916,30400150,33985504,38071247,41897465,45554947,48939034,51469688,54117580,56581200,58325310,59500160,59591568,61377857,63428688,65114632,65139175,67239845,69486336,68781647,76752487,84553650,74823051,73021637,73884163,79029327,79821365,78006111,72140335,66155205,66219139,65150574,63677155,62470623,61451336,60430840,59597610,58950783,54467690,51497444,49774517,46552612,39557957,31967571,37393063,39056053,37924110,37034058,35424110,31590527,29231485,32102718,35263657,35708328,34912113,34750908,32066364,30219311,27590210,25591379,24353693,23705132,22616936,21305866,20816799,20967003,20799217,21137266,21670752,21124802,18884472,10259916,10841025,30381296,26695358,22680237,20816566,19815083,19849646,18716299,17531242,17143127,16897266,16714140,17513676,17896740,17701805,15562016,14434201,14773148,14432941,12732377,10811403,10585349,8838269,9159237,2993215,3628667,2621784,1961855,892775,464100,827456,865069,1514383,1525348,3284855,2859936,2245234,1846750,1412155,2703006,4084785,7031502,8543633,10550865,10984648,12416056,12853840,14898501},
{-30149969,-30476566,-31715096,-33026451,-34261879,-36586155,-38954128,-40268932,-44197193,-49817661,-51367989,-53501640,-56735291,-57414062,-57680305,-57333500,-57460629,-56884602,-55108517,-53237705,-52664917,-50863220,-50367401,-49428192,-45465611,-46147709,-42355766,-39284904,-36201469,-33049881,-30618753,-27910782,-25307507,-23274868,-22292986,-21832993,-21081968,-19566694,-18965574,-18115398,-17423046,-16251364,-13925144,-12318192,-13640285,-13093135,-9248446,-5015547,-2012244,-267768,1271968,3178864,6651818,14235928,15167131,17238482,19184664,22019203,23984617,25764336,27924953,30345798,32415482,35161655,39194756,44907631,47265877,49638954,52240856,55369801,56557983,58192127,57932224,60509518,62861904,64400887,63727215,65085190,66677483,68673454,75977661,82723587,74305817,60124958,71129532,78050720,80515526,79777443,76196648,71106689,65644844,65391312,63764679,62692524,62087772,60903381,59971684,58396252,59074169,55524712,50711037,47746273,47097858,46829552,42654636,39342907,36366062,31469324,31136665,32704258,35006248,37337406,36778828,35989540,34299335,32935543,32203083,29330605,27557526,24806459,23414848,21826714,21913353,20223948,19301310,18785654,18888302,18731878,19003088,20155380,20051178,19148867,14235278,3056102,18864927,28334618,22951477,21104212,19889011,20181295,19582392,18157101,17932440,17814638,17789505,18003103,18564091,17718931,15970862,15237603,14719297,15072373,12793948,11680189,10575342,10515322,7551241,3904546,4198526,3117795,2274795,1221060,800644,918525,963622,1650574,1815247,3190872,3148572,2330723,1963156,1237986,2796847,4027796,6898252,8609993,10573824,10930014,12135053,12859501,14898501},
{-30149969,-30471720,-31639923,-32954250,-34212627,-36495075,-38916691,-40265759,-44088074,-49841034,-51168709,-53224216,-56813511,-57468418,-57807781,-57513420,-57825024,-57659904,-56087200,-54062870,-53681896,-52383667,-51439213,-49148682,-45157574,-45957458,-42077587,-39010807,-35932510,-33293571,-30215654,-27201368,-25260576,-24230623,-22945093,-21381247,-20578472,-19525705,-18796989,-17604897,-16610352,-15878478,-13425258,-12998818,-13511393,-12261143,-10391384,-8119866,-4856721,-2592721,859037,1153781,7542309,14219448,18365633,19470751,21875486,24751308,26251419,27471336,28560356,30920584,33577293,36149452,40225857,45173950,47855045,50180004,53782894,55376472,57302387,58167492,58948769,61312202,63463127,64338692,62557892,64894226,65589256,69433784,79869370,78604309,65940819,58696609,75295639,80293999,80617653,78355850,73810410,68855782,61703491,61246796,62745258,60519432,59676659,59048042,57823463,58896935,58260967,51042721,46339634,46001556,46453289,45847721,44179096,43569717,43478630,40152817,38893257,38495071,41561543,37010612,37145657,35339798,32213131,31166761,28272318,27523376,24598888,22847872,21161804,19439032,19435085,17266413,16696859,16545139,16510393,16018845,16598753,17823305,18528145,18756126,16563038,5834083,2716771,24643290,23323397,21139175,19906702,20376530,19840694,18555128,18980173,18293402,18453640,18810713,19001553,17748781,16076311,15851749,15609566,15348074,13822985,12151789,10525560,9476859,5721489,5090807,4618072,3596956,2502554,1566188,1018763,1021921,1025859,1393413,2083534,2861774,3447524,2557421,2127056,1237127,2892624,3952039,6582371,8585039,10581344,10850857,11841867,12848249,14898501},
{-30149969,-30465942,-31560978,-32881680,-34172104,-36396168,-38822704,-40223541,-43930531,-49738132,-50942253,-52893673,-56720352,-57246468,-57603779,-57534512,-57972557,-57955044,-56790100,-54928101,-54656891,-53834656,-52262596,-48787415,-44696144,-45544468,-41937134,-38971283,-35973915,-32679474,-29559092,-27082056,-25301470,-23818436,-22684530,-21402859,-20552816,-19508356,-18942034,-18242348,-17049322,-14147890,-14179358,-14124308,-13454608,-11441043,-8850351,-8539411,-6692844,-4367818,-2008945,-603034,6939482,11542767,15917094,20576530,24127098,26312149,27931908,29957626,31889799,32979137,35479122,38250969,42241940,46385017,49337746,51718262,53365284,55379032,57237900,58162106,60310081,63059479,64163544,63793407,62430752,64716675,65636436,71361671,77275452,76523918,70613976,64383797,80945595,81609634,79617256,77031380,72777817,63586990,62403046,62060375,59875404,57478615,57455612,54724819,56643948,53352253,52498093,55671375,45268444,44604698,44637486,44098816,43695442,43992985,42730015,46115185,40959610,38405769,41492989,36267220,36123306,33671413,33530361,28273449,27190763,25318047,22230949,21398735,19402464,17573311,16644827,15671643,15447451,14753075,14283755,13834333,13583531,15938286,16940945,17635265,17360228,12366236,-3233191,13365882,26810495,21556061,20214970,20673399,20312590,18987513,19407892,18479853,18802877,19223555,19158688,17899473,16228098,16520960,16412498,15834197,13828112,11764430,10553377,7147572,4729559,5748944,4983198,3840481,2792634,1914587,1305431,1063389,918714,1184487,2165687,2781087,3561506,2859651,2428189,1303820,2926601,3851989,6257003,8636820,10534926,10761660,11542300,12824714,14898501},
{-30149969,-30459486,-31481018,-32811264,-34139908,-36280243,-38686604,-40156029,-43745121,-49549820,-50695751,-52520302,-56438847,-56769081,-57150532,-57452702,-58011963,-57992825,-57348782,-55853722,-55524349,-54922203,-52704502,-48524967,-45462509,-45299538,-41680607,-38588482,-35480129,-31781282,-28862082,-26902121,-25229174,-23883936,-22886724,-21838917,-21425125,-19823246,-19022640,-18131149,-16680876,-15323231,-15147150,-14442374,-13195077,-11646084,-8779060,-7949757,-6518731,-3990449,-1779609,260686,2664843,5645577,9448048,17217129,22007793,25528816,28956770,32444355,34358685,35116238,38149529,41521957,45368385,47698406,49252796,50809864,53265930,55491138,57103733,58372765,59971600,62764740,64057785,62100552,62829376,64642075,65765907,74692833,76747437,76722214,72304672,66931976,75642342,79862671,77558578,75478241,69952209,61537857,61638756,59428188,57114182,55923008,55434948,54017040,53649754,53091198,50862175,46875507,44062180,43608315,42697960,42309208,41820858,41743073,40740471,41414364,43691685,37828712,36543159,33688042,34104351,31333172,29987839,27307896,26025173,23347565,21153749,19596138,17258730,15953175,15343997,13917331,13361074,12283401,11966102,11808015,11922594,13655684,14928846,15952590,16695612,14919096,2325928,1179149,22870298,22435415,20932093,20813778,20907211,19571276,19481932,19059130,18865026,19579451,18812889,17164377,16544096,17355429,16644768,15783824,14231887,11818039,10047964,6959482,5343180,5879791,5004307,3827846,2829495,2051224,1382933,1115173,760534,1281199,2529894,3033039,3625766,3064784,2601883,1390563,2876069,3789024,6118040,8682099,10363046,10639759,11242435,12794290,14898501},
{-30149969,-30452518,-31400213,-32746513,-34116341,-36159668,-38511181,-40070786,-43569881,-49272293,-50435890,-52129532,-55999317,-56094185,-56570480,-57378029,-58083241,-58071720,-57926109,-56752956,-56126045,-55402771,-53109173,-48632023,-47307858,-45016727,-41446121,-38489326,-34430500,-31154293,-28939072,-26989683,-25613428,-24941677,-23337488,-22264835,-20835846,-19746773,-18714569,-17790903,-16723516,-16011581,-14839412,-13983095,-12516308,-10979761,-9026426,-7325604,-5687242,-3130534,-486853,1942219,4122510,6605023,9208426,11644235,18037968,25061167,28951185,33089607,36352924,37684246,40591267,43323917,45543167,47047707,49125710,51122425,53760208,56125362,57674686,59235531,60074791,63192364,63195110,61594414,63239918,64537750,66359299,72974785,74193901,76805458,68711784,69398712,59645279,73717339,74016548,71706665,66583344,60196957,59536022,57714146,56231430,54555252,53566814,53346661,53456478,55820202,52442837,50541080,44090240,42266930,41602818,40667568,39795696,40088665,41536591,43331795,39672729,36409832,35187340,32951649,32081413,29390331,27688890,26064226,24106136,21738989,18613895,17331730,15468351,14202627,12974634,12292496,10969039,10009732,10323913,10059549,10353838,11667640,12536893,14013105,15359446,14679052,8781572,-3599973,18165400,25437286,21490786,20970150,21184034,20334099,20044300,19601141,19501528,19485884,18225121,16680231,16328115,18005054,17026201,16134687,14341136,11616715,9330254,7524498,6598644,6009003,5041565,3744601,2677679,1964335,1449652,1165850,767473,1468494,2937219,3161270,3609030,3233264,2449435,1383982,2673219,3744037,6204740,8571691,10131643,10453463,10951051,12762115,14898501},
{-30149969,-30445068,-31316538,-32682426,-34088215,-36033730,-38317345,-40003300,-43416786,-48925663,-50161331,-51734383,-55403084,-55311523,-56023621,-57393631,-58293167,-58373924,-58506073,-57389748,-56369560,-55188450,-52985332,-49002010,-48660950,-44092304,-41208092,-37456806,-34145706,-31342884,-29298763,-28481968,-26336184,-24701262,-23670366,-22267214,-20834839,-19989702,-18526031,-17588446,-16714314,-16157724,-14675426,-13327528,-11729214,-10336257,-8653593,-6646204,-4609061,-1940011,670551,3157796,5615529,8020703,10788323,13451815,15697431,20290234,27376865,30627426,34420792,36971443,39967289,42648186,44808975,46548588,48065418,50448349,53313454,55618362,56422901,57293205,59567215,61740028,60904041,61911739,63418407,64196358,66119034,73364403,73425003,73568169,70688858,68233864,56987385,58756100,66478088,66655190,62703049,59859673,58167812,56690361,56754456,54440735,53070084,52757153,52497986,52069782,49291466,46122192,42795830,41522987,39983143,39602989,38624390,38302738,36787888,36058384,35955341,34977917,32809727,32100670,29767498,30483763,25374382,24324306,21836082,18393879,17156693,15442906,13832966,12925357,12020873,10284119,8695669,8308977,8300674,8019524,8522742,9326839,10326790,11918571,13292977,13819046,11678254,3177446,6898636,23481167,24161554,21261120,21408878,21445408,20824945,20433352,19634739,19131586,17626347,16366949,16287827,17353834,17125580,16338503,14443857,11563008,9727146,8056473,6834188,6011354,5021865,3615277,2546822,1931742,1536942,1151936,947318,1433808,3083226,3196435,3583405,3386641,2160480,1271169,2397541,3707481,6345334,8277717,9934706,10180564,10677486,12732218,14898501},
{-30149969,-30437042,-31228725,-32618496,-34067226,-35906593,-38110706,-39934650,-43319870,-48555241,-49925632,-51399380,-54713856,-54523247,-55638321,-57590355,-58686443,-58903034,-58909271,-57506672,-56285507,-54552338,-51863926,-48740265,-47231541,-43980732,-40513165,-37219463,-34504566,-31940603,-30492512,-28414114,-26695478,-25220812,-23697199,-22157799,-21118074,-19611574,-18970711,-17727045,-16992611,-15825005,-14775176,-12879492,-11330075,-9477561,-7867877,-6179007,-3779547,-1281469,1371026,4394669,6511342,9437180,12023346,14590150,17147348,19552099,22236036,25753252,29372660,33958950,38055687,38726734,42109035,42376137,44851112,50333569,52274536,52824677,54404381,56823895,59350967,61443111,61560066,62196762,63581638,64837387,66696976,71388184,72810738,73813225,69638405,60920387,57044689,58954720,63359276,61211395,61379360,59099556,58822083,57862511,56417133,55481983,53806820,53545734,52253494,50180557,48179119,43323418,41758324,40489769,39151806,37860546,36960278,36235237,35068802,37316689,33635471,33074623,30789967,29096106,27247169,24998367,24277327,21458452,19171526,16469883,14933171,12875604,12129940,10947546,10617144,8836892,7429531,6592362,6067256,6120080,6394342,7346189,8422618,9899423,11334964,12567049,12416533,9943657,3544136,16882849,24198553,25114622,21924791,22425449,21912905,21259737,20133738,18976091,17790075,17032883,16797817,17130064,17028404,16960146,14326849,11852408,9915229,8233867,7313118,6078251,5128476,3852066,2730061,1969136,1563440,1067494,1057302,1201389,3310719,3138996,3536121,3451929,1824531,1133647,2222068,3706316,6148138,7907682,9825991,9848909,10429279,12707027,14898501},
{-30149969,-30428268,-31138092,-32560013,-34049641,-35781158,-37899288,-39864552,-43326767,-48210678,-49832134,-51121788,-53977978,-53821529,-55513622,-57996696,-59200573,-59468346,-58937935,-57026588,-55919674,-53802578,-50814999,-47695358,-46925461,-43563465,-40545704,-37671844,-35040276,-32661793,-30268152,-28608749,-27051516,-25516338,-24421097,-23064915,-21517847,-19612907,-19124285,-17676418,-16883631,-15772974,-14779979,-12750598,-10833869,-9013515,-7273435,-5211217,-2987905,-449646,2208504,4851019,7734084,10540471,13262857,15552835,17817493,20370703,23171436,25981258,29101774,31232151,34448978,37434315,40431477,44266113,44459572,47807671,50768562,52216576,54791687,57492226,60573238,61233128,61539524,62809990,64695335,67025436,64360603,70865715,71458473,71610901,69658752,63678333,72526398,63071114,63998306,63314404,61549809,59860916,59035305,57749519,56580391,55058067,54585152,52078194,50299015,50247353,49050522,43652668,41560062,39437355,38035187,36151131,34407703,34709877,35690212,32475262,32120358,31162769,28325840,31331972,25820629,24678047,21804750,19392878,17110369,15413165,13148056,11226943,10810087,10048150,9054645,7084410,5550114,5526737,4935140,4312069,4559277,5499493,6668182,7915435,9329251,11061861,11702554,11936025,10314186,4532703,14451396,24270849,24603615,22718046,23243814,22421356,21422068,20311943,19515213,17895132,16087168,16813005,15975741,16659704,14719908,12652040,10639640,8342194,7592000,6165584,5373067,4050439,2666541,1895601,1388378,1057881,1039669,1211566,3447313,3442351,3626237,3431637,1703912,1181155,2317545,3975501,5774057,7617418,9858254,9536064,10212839,12687291,14898501},
{-30149969,-30418560,-31047165,-32504166,-34036819,-35660706,-37694756,-39885975,-43364334,-47923981,-49559177,-50910194,-53255478,-53269520,-55635578,-58570866,-59652912,-59805424,-58537544,-56158485,-55514629,-53315914,-50105808,-47174400,-46665440,-43635590,-40934685,-37963230,-34619698,-32466610,-30474688,-28793859,-27633068,-26333841,-24514324,-23155462,-21990707,-20002003,-18687449,-17763914,-16712238,-15862018,-14263749,-12539014,-10505305,-8633855,-6898887,-4483788,-2290592,259873,2960358,5379246,8427603,11931572,14085011,16385851,18953690,24168863,23558743,28237572,29521170,33350471,35529079,37124512,39598560,41630821,46068710,48508511,51033566,53559837,55503979,57952892,60184765,61462437,61538349,63462753,66054459,68611877,67509369,65671509,69975311,70371338,67318443,69885292,64488831,66137001,64737373,62768154,61227104,59263565,58656384,57031395,54921391,54374191,52374794,51476093,49740192,48777302,45977222,43011482,40235268,37674900,35719830,33943798,37667213,31377661,31145451,31150795,30580915,28657566,27515173,25732056,23409485,22555862,20107719,16931700,14566819,13340700,11148577,9724893,9057271,8746784,7489137,5639066,4514857,4407401,3614409,2500198,2748743,3888620,5000567,5950228,7079560,8991509,10175990,11586112,12581676,9696103,2547843,12107722,24630943,24715784,24042831,23679722,22368748,21583612,20502834,19029379,16831400,16246914,14770739,15055731,14594631,12985144,10897276,8984608,7399519,6497230,5549341,4061069,2744264,1756685,1374882,1150656,935553,1175433,3624852,3877912,3677594,3430255,1762098,1256448,2577828,4594592,5802498,7492803,10002697,9287854,10034965,12672378,14898501},
{-30149969,-30407784,-30957043,-32446392,-34033264,-35543785,-37507107,-39971756,-43519604,-47929455,-49514626,-50774723,-52639458,-52897751,-56065536,-59224918,-59892887,-59700062,-57863518,-55346062,-55232121,-53267136,-49851746,-49179802,-46701534,-43997684,-41427174,-37407341,-34898865,-32777122,-30745779,-29923029,-31539455,-29570072,-24889833,-22978764,-21978668,-19884275,-18108793,-17533091,-16584034,-15470726,-13752625,-12032805,-9916820,-7946275,-5950240,-4040174,-1780529,961288,3420828,6204040,8786304,11432309,14405534,17072613,19364546,22266642,24688572,27834566,30205597,32350281,34994995,37428402,40404797,43645298,46500797,48856293,51835537,54220589,55097778,57995625,59049809,60287094,62974621,62868988,64915138,67820709,68445808,69969810,68322411,68487190,70110168,68912292,62800400,66068451,63731327,61008160,59738514,57960724,56511642,55141582,54073299,53110863,52762547,51019791,50347191,46655651,44611015,42047146,39177467,39470428,34696377,36068562,32960682,30350578,29843876,30096012,28535490,26551777,26122740,26521603,21728209,21660166,18696764,15200586,12850356,11244540,9402500,8555851,7579094,7543258,6834535,5253153,3841264,2981745,2468128,1420085,1059597,2186838,3218343,4202811,5029902,7037500,8492097,10340085,12215060,12286467,6718359,1346000,15050954,26251415,25625872,24858858,25339209,24634665,22354532,20129147,18211735,15445771,14154115,13383986,14176749,13297186,11471931,9243322,7794230,6613685,5576399,4146002,2818347,1889580,1351964,1198635,975285,1213320,3044070,3960951,3589709,3471183,1912302,1324457,2829496,5140997,6061003,7495143,10109556,9081026,9901296,12660827,14898501},
{-30149969,-30395901,-30866844,-32389668,-34031544,-35437832,-37365654,-40109756,-43676483,-47807594,-49619114,-50790035,-52195221,-52759819,-56703556,-59776646,-59724380,-59070744,-57232811,-55113819,-55253426,-53838631,-50935253,-49844151,-46814869,-44143139,-40856102,-37683819,-35264156,-33159847,-31446144,-34465378,-31134306,-29201641,-26179066,-22123720,-21605471,-19896482,-18234270,-16674873,-15848482,-14634227,-13469576,-11239808,-9872073,-8089520,-5565197,-3763119,-1086167,1438158,4012723,6690558,9363176,11945931,14709258,17434343,20078476,23521006,25995163,28553514,32390350,34096951,36657055,38639927,41211243,44399673,46337696,48233410,50957397,54492508,55660938,55856190,57516876,60434841,62403511,64059204,64453896,66250923,66718086,68031441,65333817,67414558,64749985,62153217,59940334,62827747,61065105,58624630,57013142,55616058,54271778,53386456,52014862,50390324,49456589,49247044,48929752,49809399,42662716,40019928,38279018,35644043,33364746,32813168,31018335,29565866,29156252,28121223,26344994,25187881,23500984,23069530,19736549,19785654,16470552,13841728,11615929,9631323,8164132,7219056,5982019,5605618,5986214,4919324,3131710,1469777,2030579,1182086,-282333,510648,1676028,2688594,3562246,5068671,6367569,8034464,10802280,12024036,10310602,3602469,5529614,20784565,24963509,25246286,26267214,25793896,23742479,20854151,17959572,15711534,13929519,12748117,13347423,13382960,11954230,9446507,8178131,7136743,5682972,4318690,2990720,2271559,1437527,1232743,1016531,1415287,3272508,4002143,3581777,3670984,2009649,1311466,2951046,5369448,5946225,7354428,10032931,8896803,9812226,12650976,14898501},
{-30149969,-30382994,-30775578,-32334145,-34027485,-35354084,-37298431,-40292358,-43987740,-47419037,-49718845,-50844891,-51806915,-52784851,-57270367,-60126347,-59088322,-58025208,-56934525,-55660866,-55639240,-54291157,-52224110,-49919788,-47143585,-44445824,-40984013,-38206528,-35691956,-33694504,-32331425,-32725830,-28233442,-27123901,-26511024,-23510031,-17921614,-19676390,-17706930,-15715301,-14839726,-13844090,-12565023,-11044016,-9145019,-7358280,-5611776,-3046025,-352204,1739016,4323248,6945715,9203023,12112267,14769805,17420658,20270130,23655891,27916353,30649725,33814629,35497910,36663982,40348278,41621906,44600433,46889641,49578491,52674183,56891693,58617599,58602226,58909081,59085083,62057796,62953175,64638817,65744156,64071899,64568420,62749512,64311478,64798866,59528030,60104725,61270275,58885521,56189552,54396687,53242878,51796112,50537868,50511414,49541668,48360718,46837883,45014729,44090340,41392117,38349781,36366028,34540703,32516865,31487425,29881603,29334740,27782734,27147186,25006886,22504925,21045694,19455938,18596783,15826778,16598553,12522739,10267275,8405914,6274150,4649306,4309518,4032853,3953691,3270923,1872480,-121207,571091,-203821,-1619858,-1038916,-21114,853724,1879087,3124428,4649249,6670393,8972054,10669493,10367010,8027325,2383070,6710873,12752499,22244900,24393124,23055769,23021585,20630722,18044094,15956878,13889905,12795416,12626109,13461103,12135715,9413992,8355201,7353190,6025467,4389760,3199567,2613547,1556468,1300337,902326,1532160,3495555,4173347,3478807,3925330,1984529,1220582,3023449,5434293,5638036,7061258,9746419,8765965,9761004,12641499,14898501},
{-30149969,-30369238,-30683661,-32275425,-34015636,-35270306,-37200569,-40696377,-44260658,-47423401,-49865429,-51005810,-51472145,-52861469,-57807232,-60120422,-58073437,-56789112,-56990623,-56790901,-55760796,-54328766,-52557926,-50148613,-47627819,-44447651,-41436745,-38721149,-36365101,-35022606,-34850224,-33238499,-30282320,-28840265,-26914066,-25507217,-22445902,-16414520,-15752672,-15167878,-14003257,-12447988,-11485448,-10495078,-8155767,-6466487,-4978245,-2719771,-64991,2642948,4913534,7457316,10242407,12738041,15504312,19400476,23420700,27042606,29514860,32198250,33710590,35514149,37587044,40542332,43504471,47949730,47891060,50420696,52272469,54229950,56983589,57646229,58345364,59589363,61256756,62886299,64721909,63205463,66633865,64213455,62089672,63943840,62373398,56619041,60144672,59463551,56276047,53997944,51455338,50538883,49440727,48615871,47529564,47419407,47083298,45017616,43257092,41471081,38923309,36220165,35311012,33504807,31787600,30061541,29056639,28322392,27746969,25723604,23978130,21887859,21482515,18760393,16572186,14634838,12870234,10193942,8433887,6851854,5011720,3972868,3310096,2748497,1361249,602667,76226,-1425465,-1893384,-2039408,-3009463,-2526752,-1543115,-612839,189957,1634022,3441242,5025044,7202320,9048526,9570997,9209080,6378268,790645,3216938,18439468,21394833,23254841,21123278,20664902,18135633,16824739,14260051,13817892,12656798,12813039,12461416,10102880,8898136,7384380,6182118,4659861,3453147,2568883,1843477,1509681,816904,1468465,3158313,4283881,3368063,4146397,1836885,1131685,3135993,5290450,5480733,6865435,9268899,8725258,9737059,12631731,14898501},
{-30149969,-30354870,-30592125,-32214836,-34005424,-35211658,-37054073,-41376728,-44515228,-47436127,-50056889,-51221298,-51335213,-53029449,-58095364,-59767021,-56862080,-55388676,-57308899,-58006447,-56151112,-53978088,-52899879,-50612198,-47547180,-44639156,-41989101,-39464405,-37134914,-35734947,-35737850,-34683014,-31842171,-29339458,-28030241,-25798401,-22261332,-19128345,-15181659,-14089725,-13101687,-11505372,-10168567,-8727794,-7306587,-5647899,-4099908,-1405882,877522,3725756,5944046,8361112,11164798,14070699,18019468,20995146,24426167,27979082,30543392,32830326,35250755,37126701,39485901,42117107,44767467,47005989,49370758,51553669,53643730,56955345,57637501,56628120,57808998,58364510,60514565,61447941,64839767,65235069,64458443,58336452,63011555,63350086,56710873,59061783,58725250,57041161,54267197,51754414,49419796,48053974,47464886,46529625,45984089,45998146,44651360,43024204,42040798,39148491,37224243,36085545,35273724,33074390,29525658,29414043,29541435,27524832,24862278,24322578,22414150,20643822,20279911,17834656,15668329,13330801,12522850,9292559,6971518,5116653,4004550,3412751,1587801,509958,-573782,-1584553,-2001963,-2616962,-3637513,-3542781,-3500921,-3486356,-2841577,-2227263,-1168269,311960,1655481,3218001,5166448,7060919,8498796,8908756,8687728,5202141,-793828,4982856,14635283,20931063,18889668,19624147,19213034,17720766,15311339,14477806,13016719,12363082,12139222,9890068,9389635,7645566,6456276,5024877,3847332,2782797,1948150,1560585,918768,1506670,3284677,3749254,3188649,4322852,1582115,1114268,3252805,5010263,5501369,6804260,8673931,8797074,9732121,12621769,14898501},
{-30149969,-30340137,-30501028,-32154926,-33982834,-35134869,-37063293,-41322731,-45047035,-47615131,-50271580,-51401749,-51443745,-53304817,-58148560,-59209267,-56086376,-54280884,-57479176,-59015308,-55604225,-54422939,-53586224,-50703831,-47671776,-45006203,-42561905,-40077286,-37594952,-36354660,-36775581,-35630260,-33470795,-30621172,-28998993,-26512630,-22607927,-19015696,-17174232,-10898916,-12753191,-10637000,-8867465,-7251171,-6430929,-4272297,-2765851,-389106,2231078,4669763,7255208,9475792,12404801,15799486,18835537,22566404,25728559,28765579,31061155,33319118,36191254,38423443,40617752,43664467,46155022,48516140,50710999,51922127,53959244,56945141,55785854,57123119,57881767,59603046,60268612,61003345,63768307,63507706,61389656,62398132,59522247,54175129,58565125,58547211,56152340,54802017,51788307,49881489,48158302,45726139,44886272,44766861,44330330,43073765,41525265,40465832,38549423,37569790,35662117,34645237,33936142,31531883,30012123,28531202,27643681,25092943,24002850,22831818,21510832,20487881,19072630,16181885,14759663,12195711,10458749,9702589,6427296,4191523,3051606,2272626,-155786,-1430048,-2516587,-4034374,-4299026,-4663710,-4898921,-4597189,-3871979,-4407002,-4190933,-3426165,-2445414,-1506922,-157744,1726896,3279181,4850276,6415921,8004019,8700815,7508821,3177168,-2733371,3966563,13925550,14640155,17757921,17657225,16738260,14818409,13759156,13401640,11800815,12194555,10652900,9845942,7874998,6385421,5339503,3993047,2879911,1963014,1490644,1113216,1549541,3367256,3283169,3085364,4467500,1336880,1138391,3336284,4796518,5622717,6849427,8189903,8991870,9744012,12612347,14898501},
{-30149969,-30325239,-30409645,-32092346,-33946457,-35078499,-37155716,-41473549,-45484398,-47834179,-50450680,-51568550,-51379772,-53769127,-58220467,-58550327,-54880627,-53474449,-57384869,-59539097,-54938942,-55378052,-53830994,-49757206,-47960823,-45755569,-43187531,-40933292,-38284904,-37650356,-37884937,-36648479,-34398903,-32550194,-30171711,-26708464,-23233130,-20189013,-16803539,-12028033,-11304594,-10125031,-8447400,-6410748,-4780447,-3299219,-1474053,718548,3400155,5687051,8262086,10921290,13470402,17250185,20243710,24339268,27301729,29843054,31559120,33823383,36465317,38950783,41602016,44375061,46644592,48750778,50184422,52320518,54084057,54214413,55822945,58983124,61765282,58058121,60311005,62211155,62461658,62477169,59906879,55519115,60192425,60279793,58535141,55619141,54447384,52000462,49969955,47814960,46236732,44311653,43658512,43241096,42289898,41233692,40756920,40617081,36699257,35252838,33412483,32863743,32859798,29582064,28251141,27817940,27674999,26248228,27748474,23654896,21124044,19033405,18200272,16350233,12807787,11054138,9040679,7026549,4874207,2739585,1589759,594460,-1456575,-2904958,-4319910,-5986252,-6446285,-6462609,-6067740,-5542019,-5212728,-5531667,-5267973,-4757121,-3917140,-2883718,-1284292,-55561,1207249,2741209,4860520,6729761,8286303,8096463,6547215,1288664,-1463996,336307,10958969,14597681,15809672,15524870,13834661,12760222,12219062,11527930,11847182,11251084,10063101,7695930,6553430,5813951,3949723,2844254,2041943,1434207,1226024,1549826,3010356,3005766,3118753,4353018,1050061,1200016,3375793,4683648,5776979,6960643,7978165,9266022,9775339,12604592,14898501},
{-30149969,-30310297,-30318180,-32024364,-33904129,-34957920,-37306080,-41712322,-45915592,-48084469,-50581524,-51680664,-51460094,-54102699,-58079941,-58306065,-54257172,-53007374,-56737438,-58570042,-54816723,-56151947,-53454426,-50340416,-48093971,-46275036,-43849113,-41614059,-39187347,-38745296,-38541946,-37862549,-35929489,-33616592,-31788507,-27310711,-23984251,-20732113,-17688854,-14321758,-8982715,-11959569,-10057744,-6730382,-4887732,-2461992,-851851,2229271,4411988,7200775,9960285,12831685,16779558,19360430,22200924,25206141,27468330,29130161,31011629,33570316,35889389,38593559,41296211,44186543,46380550,48054707,49905739,51713478,52511497,53982441,60901814,59484940,59849808,59267326,58609703,62869381,61211700,61837238,59489952,53535133,59570469,58423939,55907871,53281227,51955284,50045162,48453949,45035744,44134163,42592312,42378918,41693737,40484810,39807999,38126492,36263344,35158134,33302025,31641159,30815296,29830097,28939932,27616024,25711544,28352123,23653967,22933472,21563593,20157475,17390026,15016665,13962604,11662611,9164645,7235632,5039377,2928635,1533105,268024,-957273,-2563224,-3953109,-5650095,-7242940,-7781209,-8205690,-7135386,-7159718,-7198008,-7139524,-6511951,-5808150,-5093371,-4333545,-2796273,-2020007,-344167,1343732,3461464,5598235,6918037,8227455,8244551,8149057,3513080,-1001759,5943445,10270017,12924843,14583281,13599346,11567051,11247512,11765319,11424341,11277907,10369187,7972544,7199440,6046300,3851541,2805232,2167987,1558132,1360244,1696874,2634168,2635154,2986010,3811431,798665,1349240,3399840,4656274,5916694,7111886,7966383,9528687,9828683,12599770,14898501},
{-30149969,-30295340,-30228260,-31951839,-33849560,-34902683,-37562222,-42082390,-46360668,-48340878,-50655087,-51741280,-51696033,-54485397,-57726326,-58346363,-54301826,-53271290,-55683678,-57455914,-55246162,-56511841,-53742947,-50820831,-48836044,-46685444,-44462017,-42188732,-39874393,-39758781,-39716415,-38688576,-36706665,-34670086,-31312923,-27260111,-22555689,-20177111,-18109144,-14266882,-11767941,-8026117,-8554772,-8015192,-4727714,-3027691,181425,2579126,5654753,8261608,11791483,15397211,18404827,21038897,24471706,26205276,27277184,30629320,31591284,33521488,36080482,38148369,40260963,42977737,45942093,47706383,50138367,51998409,52694683,61768890,59123055,60639706,59857349,59982216,61004719,59355797,61815208,59603588,55397205,52071228,58255646,57047508,53134308,51836349,49439972,47466888,45502079,43551170,41998554,41176182,40651798,40359989,39194138,37757362,36103134,34445435,32618397,31733543,30158251,29192251,27761101,27628143,30234688,25276567,23755505,22657534,21448627,20060387,18226736,20017904,14099810,12099024,10435941,7894107,5110056,3126985,2079453,237680,-738689,-2502051,-3634924,-5209501,-6680038,-8158265,-8386358,-8795182,-8220840,-8118815,-8672836,-8358805,-7985876,-6824255,-5859296,-5006134,-3950668,-3289859,-1385752,175707,2118461,4235329,5783008,7893486,8850965,9549513,4946833,-578509,7411819,10494974,10746173,12764068,12988675,12087884,11563701,11936536,11209931,11047956,10270282,8345592,6992317,6284655,3709706,2792454,2371288,1969097,1594419,1787308,2284713,2673989,2937830,3016386,593274,1546794,3433450,4683948,6029818,7287622,8044746,9734373,9902368,12599055,14898501},
{-30149969,-30280317,-30141233,-31875341,-33785179,-34891701,-38055424,-42764954,-46757195,-48580135,-50674522,-51756550,-51991138,-54840218,-56771343,-58190704,-54972614,-53137417,-54476223,-56432358,-55902489,-56529312,-53820732,-51365097,-49209881,-47315746,-45132122,-42656197,-41019070,-40542126,-40952267,-39706501,-37951691,-35741035,-31209467,-26253542,-22386332,-18914299,-15485673,-11241524,-9973701,-8661674,-6347014,-3937434,-1962775,-4829345,1050148,3986721,7373116,9439155,12153091,15605376,18923296,22316013,25189177,26007578,28510340,30114964,32481152,34930370,37784790,39844521,41839680,45114929,47055676,49339348,51344536,53722332,59312397,59749359,61055378,59836773,60266598,60046295,60274448,53756481,52941330,47052528,45528503,54618431,58791233,55508446,52405815,50417946,47503109,45227631,44004654,41965908,40693123,39666775,39168907,38737823,37824249,35752190,34294067,32950001,31084658,30373413,29008493,29951605,29782965,27036137,26362494,24554722,23411140,22352772,20098530,19195162,17295233,15229871,13329935,11458744,8223022,6787085,4117279,2321684,727476,-744370,-2167942,-3264575,-5117645,-6589468,-7773658,-8666106,-8939961,-9279185,-9224897,-8733734,-9251420,-9098990,-8803458,-7851980,-6769985,-5416502,-4672373,-3887156,-2270349,-773960,811957,2325945,3851411,6391427,9058026,8331027,2675923,8131424,9187069,10174345,9546176,10011231,12304875,11872005,11402279,11159909,10848872,10768392,10038345,8617124,7459569,6149907,3473564,2740182,2610370,2127603,1895956,1850879,2150612,2393062,2997867,2287718,428891,1804359,3432950,4695201,6118095,7454378,8172334,9905277,9990095,12603433,14898501},
{-30149969,-30265139,-30056671,-31795523,-33678558,-34926220,-38760349,-42828579,-47083759,-48787575,-50652374,-51753746,-52291805,-54930302,-56303406,-57242809,-56005081,-53346451,-53640575,-55476334,-57457695,-56523788,-53847931,-52280678,-49912258,-48250916,-45777298,-43099308,-41735092,-43726791,-41784267,-40663750,-38753643,-36422474,-32004135,-25611797,-22331974,-19251522,-15877281,-11731761,-8768307,-6354767,-3178885,-1600168,5170266,729719,-32653,4891336,8387921,12599644,15456486,18085457,21054806,23909851,25099913,27279345,30322588,34502254,36438499,36972031,39428005,41702248,43608528,46317547,49280796,50690289,53394444,57099949,60830864,60474201,58068668,57603973,57418312,58202831,62179859,62331810,56298382,57735081,58203320,58166245,56978271,54386681,50648521,48426788,45578480,43675877,42773159,40433220,39825161,38988060,37968307,37221951,36076019,34021717,32692505,30638763,29528069,28497023,27741302,28985888,26325356,27376928,26344177,22016392,23057585,19194874,19182966,17870375,17910505,15673950,12702678,10337776,7636477,5357425,3078169,1371286,-388579,-1743459,-2777181,-4502729,-6162868,-7366168,-8399526,-8963375,-9213068,-9401125,-9650319,-9276763,-9705389,-9765287,-9843827,-8795352,-7449016,-6330800,-5183428,-4882514,-3858774,-2836588,-1621853,-30719,3787637,6394588,7667127,5283121,-306768,12769387,8681958,9235298,8661964,7606166,11027412,11185194,10252132,10299884,10734727,10255097,9772499,9257034,7692542,5833239,3350869,2694402,2779712,2557470,2058095,1844391,2123040,2480769,2975064,1709724,370561,2063303,3443570,4731525,6196981,7592416,8321170,10062133,10084556,12613662,14898501},
{-30149969,-30249720,-29973362,-31712135,-33545513,-34914948,-38863293,-43141190,-47339149,-48953110,-50610668,-51749767,-52592266,-55107990,-56218472,-56893597,-56349239,-54051994,-53423237,-55419285,-58293953,-56743950,-54115650,-52469551,-50699993,-48948891,-46521564,-43404755,-42799446,-44916851,-42814178,-41380985,-39555931,-37266273,-33199829,-26559191,-22482325,-19116261,-15710433,-11767680,-9669468,-7352730,-3846143,1017676,4707411,7361497,2578615,6941438,10132776,14183457,17563217,21217957,23923168,25045902,26586905,28271318,31969761,33847824,37609516,39969173,42735733,46949482,45885201,47908066,50288754,52843578,55539181,57993916,58156464,56586811,51549313,52844044,57503460,61423851,64426018,64852150,64176575,62598721,61138306,58920120,55783951,52779320,48812378,46390804,44175308,42335663,41037395,39586315,38598778,37357586,36348885,35356152,34125408,32029942,31241741,29853680,28997316,26772343,29200321,28340235,25160845,25757637,23469316,21424397,21869312,17867777,18233143,16752403,15952562,13881356,11468122,9307359,6805290,4327276,3071700,398983,-1471942,-2789085,-3942781,-5341221,-6321586,-7600585,-8698469,-8831615,-9255437,-9391549,-9622394,-9776587,-10607480,-10946293,-10981121,-10253988,-8993890,-7746254,-7343248,-7140876,-6917548,-6210995,-3845307,884862,4057034,5500751,5885714,1245343,2342030,8185055,7794433,8011942,7515281,6266037,9380808,11850932,10388456,9791286,10127664,9703221,9860117,8926003,7995688,5428774,3380051,2865633,2914149,2892739,2125213,1815649,1944347,2702629,3045857,1232768,428520,2220300,3454809,4825216,6279060,7703677,8480248,10204676,10181560,12630306,14898501},
{-30149969,-30234028,-29891321,-31622799,-33411068,-35094162,-38797298,-43489670,-47518860,-49076214,-50568661,-51774078,-52870285,-55551487,-56779713,-57108433,-56632591,-54948551,-54373592,-55718899,-58295734,-56748749,-53888031,-52998554,-51595741,-49247028,-46863117,-44187607,-45268532,-44987297,-43559776,-42477245,-40673637,-37719883,-33537945,-27825747,-23128544,-18494469,-15224294,-12168181,-10099251,-7866841,-5015336,323012,5335644,7688513,8179527,8153686,11085086,14814565,18488159,22427036,25152494,25801004,28040014,31212543,32685379,34918900,37051060,40172962,42639034,44647625,46881668,49510128,51487442,53497200,55441917,56348221,54584801,49389359,55311096,63486423,65509834,66320145,66002731,65328773,64086121,62258091,60582985,57898605,54414391,49496559,46909512,44198673,42456795,41068600,39825020,38548103,36965591,35367954,34169239,33192249,31872091,30360136,30188782,28466749,27897305,26995480,27098070,24687574,28502819,22725731,24257940,20415390,19111519,18991972,16594088,15609039,14145947,12106781,9891189,8544252,5903244,3371319,1259702,-392484,-2553440,-3992774,-4726469,-5841063,-6777911,-7604594,-8270619,-9245327,-9722642,-10211726,-10159840,-11145350,-12193794,-12872446,-12620111,-12159898,-11438607,-10432883,-9825253,-9575336,-4197124,-3367701,623160,1567941,1288407,5201853,2930784,-2792567,4923155,6942435,7204144,6417789,6111258,5621847,8343019,10809021,10901122,9689666,9486111,9385880,9091357,8232514,7492933,5085895,3588217,3039866,3087796,2999624,1934488,1802890,1747724,2798592,3141272,922934,711898,2301456,3451800,4978975,6356980,7800696,8652832,10334887,10280525,12653773,14898501},
{-30149969,-30218117,-29811726,-31528048,-33253738,-35322674,-38940258,-43830158,-47631905,-49161423,-50550365,-51838703,-53119125,-55970081,-57362644,-57509296,-57228645,-55735012,-54861801,-56173386,-57997013,-56671547,-54973106,-53717075,-52012989,-49880810,-47181141,-44740299,-46949299,-45738674,-44544743,-43223537,-41431824,-38299839,-35114738,-30163439,-23925331,-18408180,-16049517,-12757435,-10132897,-8067252,-5250349,-1224894,5660362,8707015,10501566,10432369,12076612,15197032,18764454,21920633,24917351,26690590,28719456,31540773,33627651,36181355,38855682,41413662,43794716,45836773,47573898,50013000,51516659,53248291,54549377,51993675,51566662,61622471,64001999,65856171,66579414,66460098,65934654,65014496,63461216,61924553,59613979,56395000,50681217,47973274,44261147,42137291,40587387,39591431,37996807,36832489,34827263,33606564,32046192,31125065,30769928,29953440,28471031,27897167,27581959,25683985,25400507,28799650,24559355,25447126,22825323,19746788,17647928,16432800,15696601,14330777,12486684,11005696,8984422,7068684,4786184,2273438,691434,-1418314,-3252067,-4580728,-5732895,-6311864,-6825827,-7772257,-8258504,-10035742,-11512674,-11783869,-11749940,-12858227,-9622276,-14203984,-10682810,-7811274,-10393960,-8852542,-8368988,-2893414,-5011043,-4525296,-5472404,-1874243,3255570,3714669,629908,96494,4149848,5062473,5914358,6683197,6940550,7159419,9214047,10477021,11484856,9511392,8655691,8773616,8499907,7929306,6278557,4697507,3342014,3088490,2995244,2666389,1870666,1725592,2269877,2828546,3128169,813150,987640,2330890,3514647,5198323,6459515,7891505,8829844,10446368,10380821,12684324,14898501},
{-30149969,-30202114,-29734797,-31431656,-33089149,-35184029,-39307011,-44166054,-47681961,-49214718,-50571079,-51952446,-53329960,-56139759,-57377853,-57865746,-57787174,-56646587,-56128437,-57878426,-57579559,-57059334,-55782307,-53223686,-52331150,-50460621,-47395481,-45502335,-47325451,-46530731,-45208370,-43897221,-41687775,-38967991,-35988766,-31985901,-24422209,-19744753,-16279522,-13153511,-9750324,-7599683,-5661979,-2233585,2853973,7492982,10914817,13800607,14209294,16182205,18932642,21640615,24036064,27525166,29497066,31970345,35653305,37512974,39990757,42112209,44877380,46625710,48328415,50208416,51416683,52659859,53303738,47621834,59667866,63696930,64884293,65973343,66077019,65807945,65109192,64086441,62795307,60712688,57761009,52585995,49858421,45379780,42314537,40430225,38768009,37222641,35419918,34188904,33123291,32223652,31181318,31068260,30006010,28679144,27833689,26443920,24922472,26691164,27251637,27004580,22943098,22056236,20423386,18652170,16823975,15465844,15159762,12837455,14371791,10285997,7446367,6276017,3649579,1809175,-40059,-2157030,-3924047,-5522477,-6477121,-6768616,-6857919,-8094926,-9497827,-10210196,-11762801,-9107154,-11347670,-12285059,-6355064,-13378981,-14993488,-8735559,-11482623,-10450472,-10782855,-9367343,-8197763,-5909114,-3072689,25110,2654169,2766531,-2097908,4557209,3848686,2368578,4273885,5308945,6089019,5028307,4037152,10333220,11358415,9301765,8294123,7388006,8354995,7498457,5825284,4519675,3340784,3135952,2602070,2419330,1806385,1643672,2439425,2727919,2994160,764773,1171581,2456706,3608623,5334898,6569122,8003446,9008201,10524195,10478149,12722052,14898501},
{-30149969,-30186203,-29659023,-31334719,-32918350,-35456799,-39771770,-44482029,-47686771,-49250824,-50641418,-52112911,-53517582,-55879829,-57262642,-58379757,-58355255,-57428177,-57216976,-58722458,-58004589,-57334999,-56518467,-55118618,-52979244,-50350986,-47756760,-46990326,-48138794,-46967167,-45772579,-44570312,-42319424,-39339066,-36400341,-32813961,-25822048,-20263102,-16596722,-13593347,-9739084,-6982441,-5355668,-2407720,558170,5340211,9587339,14928149,16527534,17595007,19267637,21897434,24879774,27687220,30824366,34552952,38220901,38430172,41001160,43203144,45672245,47104462,48650505,50063778,52046516,53420399,53059666,49195076,60513268,63996593,64777374,65315666,65159157,64840088,63766140,62639763,61274994,58964375,57249870,51084717,47138042,42965687,41004028,38800488,37282551,35225536,34240185,32804070,32579174,30716427,28751554,28616613,27322819,26802376,25325655,24838242,28922167,26509104,23113089,22223860,21963663,21435131,19227737,17219515,15594762,14450262,12962078,11855086,13115951,9866832,9115155,5330799,3039928,1407819,-506344,-2710278,-4503554,-5912842,-6801361,-6702476,-6884586,-8615727,-8257568,-7228538,-9570626,-3058293,-10811299,-13016781,-13996870,-13882502,-13702034,-13345408,-12668657,-10981174,-10141430,-8852354,-6546508,-4748958,-1786293,-341371,2137932,838405,-6120087,5516631,2524760,2323359,2572356,3359777,2910964,1547904,-443926,8816883,10250773,8714112,7923954,7059263,7717489,6931906,5451386,4553593,3089874,2668570,2290558,2101302,1718578,1554648,2430590,2647962,2855559,703887,1189072,2591922,3703847,5339079,6638672,8148345,9177209,10572406,10565434,12766843,14898501},
{-30149969,-30170561,-29583290,-31236183,-32735840,-35654888,-40167610,-44785824,-47668427,-49281250,-50762558,-52317616,-53695957,-55302864,-56756012,-58698460,-58742397,-57804836,-57684837,-59315655,-58107800,-57821217,-57222557,-55230484,-53580700,-51839821,-48024788,-48894444,-48075668,-47480946,-46361771,-44650867,-42327499,-39488785,-36674572,-33293751,-27696323,-21464048,-17424391,-13794638,-10013901,-6993102,-5165154,-2336201,365705,4476047,10235744,12522626,17402399,17113371,18303438,23218077,25908052,29180077,33007141,38029007,38867908,40094299,42207340,44366238,46318493,48145226,49154095,50502140,51800186,53165798,53545021,49241718,59822945,62627266,64034996,64385498,64052940,63382183,62479057,61001850,59487022,57073360,52333805,49371651,44542820,41687592,39538734,37450737,35842384,33860760,32260780,31711767,29798155,27736797,27572411,30862185,28794779,28543669,26569599,24205807,23695156,23782440,22709013,21814272,21112738,20276846,18316877,16231335,14251278,13108276,12154617,10973519,10804287,8581981,6737467,4558430,3694534,1123546,-823404,-3109692,-4770708,-6138200,-6622113,-6681855,-7382025,-8531608,-3481813,-9177886,-11317494,-12381029,-12307844,-12526108,-12709145,-12579193,-11660370,-11208579,-10345875,-9075891,-8482609,-7499191,-6171328,-3880051,-2631725,-541616,583528,-1153359,-2345350,8594669,2446272,1481049,2647320,2503573,1894676,246059,-739143,5297352,8118338,8357619,7811298,7061856,6646665,6461505,5838737,4753328,3044621,2528183,2214345,1904721,1553525,1490999,2178317,2442972,2557027,654657,1112987,2663262,3860515,5378782,6672852,8303905,9327211,10608741,10637932,12818365,14898501},
{-30149969,-30155310,-29509012,-31135641,-32562340,-35576591,-40678555,-45081875,-47645828,-49324425,-50935268,-52554626,-53885620,-54960098,-56707268,-58536774,-59079502,-58211842,-58228001,-59208225,-58655281,-58819950,-57581577,-55576473,-54206367,-51536701,-48660030,-47953678,-48155022,-47863934,-46472122,-44892014,-42310078,-39737602,-36886211,-33347301,-29025991,-22571829,-18636496,-14521561,-10737871,-6962435,-4978339,-2149302,597462,4912971,9817762,10020104,11901398,13364454,14843264,22999319,28058565,31933285,35881359,39088772,38958134,40042156,41831352,43267113,45223289,46869297,48766163,50162247,51493465,52561028,53865738,51703148,58859604,61781246,62792747,62891708,62841763,62284893,60886669,59459484,57830196,55295132,52452892,46579712,42770622,40781242,38618977,36635277,34148861,33015369,30653822,29703201,27549290,28068985,26952854,26204840,25582779,24800627,23948805,23136320,22766781,22336647,21801783,20738819,20450432,18911942,17281931,15598919,14178283,12826146,11802409,10098862,9626485,7876270,5452297,4651075,1933715,1064256,-1064137,-3326056,-4980465,-6035537,-6756291,-6208097,-6359107,-8130394,-9132293,-9227940,-8743786,-9985459,-10847610,-11450592,-11758481,-11712064,-11166460,-11061687,-10535711,-9621472,-9238628,-8594713,-6064091,-4363047,-2555450,76963,1076208,-3524021,658673,3991652,2696975,-103080,1677848,2123851,1695699,523236,-1040217,3563909,6477918,7888327,7137959,6587947,5796876,6035799,6092403,5033681,3117270,2575733,2562552,2044420,1479897,1478980,1906972,1947866,2161974,781464,1220914,2694931,4078950,5524572,6725738,8428105,9445852,10639934,10697977,12876092,14898501},
{-30149969,-30140484,-29438900,-31032724,-32408871,-35697746,-40979935,-45359413,-47631596,-49388924,-51146370,-52813839,-54114166,-55438141,-57444633,-58201122,-59110794,-59118958,-58960930,-59477577,-59536049,-59270248,-57770256,-56063065,-54385891,-51220947,-49202694,-49803158,-48585518,-47642956,-46789371,-45004009,-42429474,-39798450,-36737938,-33187305,-29512085,-25515213,-20757820,-15686111,-11683407,-7094165,-4934688,-2384842,969881,5648946,10692369,11968073,8372731,13200610,12056702,24665512,30329258,33878597,37069481,38393196,39430099,40309849,41868084,43439537,45199497,46808956,48201702,49821846,50766705,52022331,53323860,53589310,56743584,60183331,61164909,61162460,60971577,60669697,59404045,57938000,56110733,53851444,50180576,45131004,41609047,39625755,37263351,35196865,32839905,31300909,29120213,27426052,27067993,26949110,25655066,26592606,24520296,24033007,23302544,22148365,21239912,21117376,20670839,19618702,19038050,17366411,15744620,14518350,13427847,11897758,11087059,9258076,8681749,7286222,5507528,4773536,4017900,-111737,-1260949,-3778389,-5087264,-5579275,-6365287,-6137605,-6902188,-8322995,-8862354,-8175629,-8043502,-9627554,-10707930,-11058296,-11186977,-11915994,-11960517,-12099831,-11341061,-11065527,-10283002,-7536057,-6143085,-4223286,-1853989,9380,976383,-5795527,5006133,2007079,2850958,-1766172,620549,1685331,1556293,284450,-1603841,955690,3932295,6977624,6978601,6157313,6711843,5934239,6338799,4908120,2895117,2631783,3061284,2348643,1550110,1485999,1887641,1622778,1867373,1167958,1582855,2815467,4257663,5846039,6835951,8555950,9489992,10664454,10755485,12939388,14898501},
{-30149969,-30126017,-29373781,-30928865,-32247807,-35995853,-41334560,-45622013,-47637062,-49481934,-51385048,-53083965,-54407711,-56142902,-58216045,-58550564,-59490364,-59704983,-60534721,-60441128,-59981686,-59783485,-58090935,-56390064,-54499920,-52141754,-49478958,-49781441,-48996662,-47610077,-46800976,-45320812,-42508404,-39712128,-36510750,-33016880,-29777216,-26378628,-22846163,-18089064,-12530857,-8377906,-5526273,-2647042,882692,5451436,11476783,13026548,9423882,16890158,16589342,25155146,30018003,33295197,36595623,37660336,39804077,41060299,42428253,43525257,45244923,46846550,47785915,48982220,50198307,51181389,52388103,53528828,54228970,58759148,59206490,58934719,59321049,58751225,57676300,56310936,54446224,52105774,48519192,42870914,39591766,38012722,35927624,32641567,31733358,29729490,28930063,26126223,26857307,26013086,24676605,24093857,23115864,22573467,20951632,21906948,22952347,19599686,18721016,18676241,17780264,16112494,14623392,13657974,13649737,12273043,11329781,9239638,8324960,6810932,6265480,5522295,2231842,299799,-1798472,-3834316,-5015738,-5311263,-5383615,-5692958,-6886947,-5574414,-9094131,-8746154,-8766196,-10137161,-10463470,-10427578,-11035589,-12065507,-12402880,-12316001,-11779215,-10042580,-8801678,-7626035,-6048549,-3793830,-1663586,112934,595763,-8994436,5116006,1952309,2920698,-233341,49105,1135012,1143216,266181,-1413502,-359522,2159101,6656916,4938449,5512148,5395673,5781575,6015762,5166097,2790007,2705986,3431984,2477954,1662583,1394155,1809695,1400872,1850579,1722892,2144741,2952222,4375896,6182220,7007974,8711216,9464529,10685498,10824031,13007621,14898501},
{-30149969,-30111784,-29311846,-30827715,-32072330,-35779453,-41668575,-45861927,-47677288,-49605846,-51634514,-53357258,-54781967,-56595718,-58518822,-59391083,-60030003,-60311916,-61033909,-60886742,-60813129,-60084648,-58516113,-56796787,-54597057,-51947113,-50162415,-49706123,-49071205,-47835201,-46902477,-45184090,-42632278,-39705486,-36569267,-33299683,-30343784,-26607746,-23369831,-19208828,-12976932,-9107409,-5332883,-3165381,391041,5126051,10983491,14311796,11336261,15669172,18865150,20331621,26958805,30019007,34279655,37812553,40267479,41589588,42751118,43780876,45355251,46611710,47547012,48273056,49270149,50425648,51281940,52041424,53110638,53247505,56621433,57170609,56827076,57382832,56013138,54582394,52656933,50632111,46738811,40943771,38030228,36209736,34389557,31461836,31145193,28291254,26651167,26281620,24468058,23905500,23399084,22465139,21542803,20716637,19402157,18326443,18583794,17947212,17811621,17888000,16241385,15617808,14294789,13375702,12454344,11379830,10334555,8957766,7249369,6274940,6030323,5699014,2701720,283483,-1803836,-4080381,-4568261,-4649634,-4649217,-5157829,-6888493,-8279371,-9209270,-9503291,-8930470,-9448910,-10561769,-10606017,-11517488,-12335785,-12524360,-12432467,-11783402,-9664259,-8542557,-7060786,-5589784,-3613404,-1380440,539202,-720018,-10036998,3702387,1757545,2410731,5102667,-237608,1108458,958331,298080,-748568,-1186610,2833405,6004406,4039253,4784245,5416603,6065475,6018435,4837820,2557277,2622250,3608814,2358390,1512958,1410305,1548373,1359291,1947428,2270278,2635929,3186133,4487363,6228757,7212013,8864576,9404558,10708759,10914410,13080263,14898501},
{-30149969,-30097666,-29251471,-30730833,-31917913,-35524208,-41982208,-46080460,-47754444,-49763134,-51883793,-53622013,-55244492,-56900791,-58805668,-60294720,-60482792,-60352589,-61839157,-61639214,-61082718,-60344090,-58993099,-57209324,-54708416,-51758461,-50666359,-49725212,-49242172,-48062778,-46630325,-45133762,-42643402,-39881893,-36833260,-33417946,-30353508,-27355249,-23713900,-19971901,-13641113,-9075851,-5074419,-3363261,-199951,4828372,10655240,14926017,14046020,15412075,19046476,21818924,23609703,22924770,32960926,37902645,40825249,42057159,43244152,44362946,45514301,46594856,47390621,47612343,48605671,49507317,50259762,50787830,51285530,53198406,52061180,55523209,57995018,54846931,54212460,52895775,51333786,48415108,45995300,40011223,36552383,34743900,33148991,29921246,28484833,27294821,26444780,25154964,24015232,23561407,22934406,21384741,20952339,20228239,19041353,18259869,18211126,17367582,16573385,16511700,15238326,14861674,13567739,12133448,11665882,10253953,9455942,8230072,7580006,5632393,5205887,4119346,3522866,-31327,-2425883,-3754719,-4104036,-3791947,-4728460,-5668017,-7032719,-8266563,-8970169,-9155380,-8480034,-9394094,-10126493,-11130434,-12234976,-12712719,-12705102,-12240498,-10754608,-9909315,-8576508,-6762949,-4989559,-3334712,-1514708,467489,-2732060,-8156420,5321507,1430058,2129290,4659841,-28615,1313125,983623,243206,102669,93873,5487065,5606922,3873249,4939771,5017878,6055702,5870561,4297080,2388242,2496238,3632133,2375454,1363633,1493482,1206447,1626417,2139639,2719655,3025505,3490174,4594975,6048934,7408407,8988173,9338126,10729856,11027972,13156934,14898501},
{-30149969,-30083601,-29193674,-30638075,-31760090,-35522346,-42254177,-46270161,-47866302,-49946972,-52117401,-53875156,-55808792,-57321724,-59072552,-61062473,-61148277,-60603458,-61846210,-61243099,-61568104,-60803493,-58975967,-57636398,-55435104,-51381065,-50507030,-49767532,-48861973,-48100189,-46747658,-44888069,-42677998,-40117702,-37000969,-33917889,-30735321,-27462254,-23919727,-20361565,-15203808,-8389648,-4203232,-3479738,-1075466,3775340,10434605,14492229,16001202,17269243,18632946,20173332,20830318,21512774,28167236,36961918,40950172,43223694,44295864,44980541,45844616,46567375,47452080,47274975,48720001,49289944,49700146,50206955,50027325,50785789,51144829,51476875,52498348,53985020,52289040,51018200,49656666,47044708,42549976,39221432,35142380,33226585,31017445,29047026,26947830,25701782,25690151,24309113,22940065,22222464,22017368,20348417,19828306,19633471,18270285,16900879,16621380,16561359,15804737,14950906,14537470,13251662,12410628,12471004,9237594,8956651,8264761,7164045,6883539,5623769,4841169,3993502,1774116,-752488,-2311649,-3211052,-3799729,-3660383,-4850416,-6215316,-5126023,-8339574,-8860932,-9191581,-8137319,-9800639,-10692849,-11871105,-12549083,-13012075,-12293637,-11506668,-10732591,-9748496,-8257213,-6909918,-5233826,-3120018,-1243179,502842,-4624551,-6266396,5391700,2608327,3680505,1647771,722408,1791914,1344144,569568,416422,4144202,5579996,5543758,3996693,5098367,5004407,5261654,5465810,3717752,2547802,2793168,3194436,2275886,1246310,1486125,955508,2028625,2403100,3053731,3204460,3644694,4706269,5894445,7535077,9075956,9306894,10733463,11153227,13237334,14898501},
{-30149969,-30069643,-29140781,-30550879,-31591522,-35680611,-42490189,-46426704,-48010468,-50150185,-52322582,-54107040,-56337467,-57820286,-59421783,-61554367,-61845661,-61164242,-62160763,-60875717,-62181744,-61565327,-57429958,-57744328,-55192192,-51525684,-50459579,-49627106,-48567459,-47651398,-45977318,-44705288,-42615688,-40307961,-37111931,-34142879,-31098242,-27896235,-24235344,-20573244,-16145134,-9363862,-4698735,-4659025,-1687505,3378756,10376513,13843201,15427097,18805305,20477079,21562513,20817402,19614412,23347820,28331347,37217354,42327156,44423859,45999680,47718201,47832733,47744728,48178547,49152081,49839497,50542812,50567898,50499374,50178596,49935120,50634026,50457855,51282761,50746979,49295715,47370399,40678524,42085049,39499432,35246914,31836472,28743898,27302210,26169483,24544294,23945324,23260916,22085442,21207308,21280674,19098646,19388184,18929440,17080435,16323973,15895937,15809424,14824717,13687623,12852737,12328890,11046429,10276558,9337177,8618595,7371100,6835800,5911119,5111651,4421109,2596978,1547203,-630465,-1951023,-2483499,-3652446,-4105242,-4981897,-5004036,-7198868,-8130754,-9085800,-9420538,-9696234,-10044040,-11161376,-12062692,-12477580,-12660076,-12234059,-11653478,-11118988,-9670920,-7959069,-6337576,-4726002,-2684142,-859518,508668,-5776759,-8515268,3677629,5161859,5855245,-179223,1762174,1982350,1640659,965931,932297,5364491,5261230,4848844,3799295,4192985,4580475,4380790,4874208,3227653,2425393,3012901,2712574,2328767,1195099,1282621,728629,2112433,2570122,3217008,3419337,3666927,4854576,5816332,7659037,9123662,9314786,10718069,11269655,13321100,14898501},
{-30149969,-30055948,-29093191,-30467281,-31454266,-35685665,-42690071,-46548626,-48179039,-50357784,-52491573,-54308384,-56660461,-58129986,-59746830,-61545151,-62341022,-61527863,-61520187,-61618523,-62882183,-61363148,-58943558,-58122478,-53893730,-51295723,-50555931,-49753269,-49056160,-47197014,-46125786,-44374100,-42628628,-40082409,-37420719,-34514545,-31634680,-28303223,-24739977,-20769327,-16464827,-11529745,-7504189,-6413277,-2636975,3168690,10038905,13250572,14789540,18307741,20138643,22000446,22894199,21472534,17197678,18299171,24217669,34496693,42083775,44673176,46584698,47562263,48672749,49903877,50923878,51585026,52101429,52327213,52066704,51787766,51118149,50878510,50702332,50558174,49055073,48042847,46171291,43661160,40392426,37712994,33123562,29732189,27239948,25249643,24000849,23011168,21941978,21590219,20733604,20469751,20200315,19798916,19162697,18425564,17035715,16298899,15933929,15157917,14132085,12916169,12248587,11284326,10462420,10107415,9441719,8773448,7371837,6641167,5677939,4908230,4998578,2376930,1595507,-924625,-1377388,-1815447,-3055693,-4414462,-3912900,-2531541,-8283178,-8591084,-9359823,-9866056,-10391294,-10170209,-11326544,-11850965,-12349356,-12295122,-13038411,-11908404,-11351464,-9510091,-7720668,-6195315,-4194796,-2276202,-325242,1071283,-5767430,-5789713,2047018,1027609,149137,1281277,2374813,2316096,1045852,716919,3325323,4779788,5005117,5036829,3946062,3670324,3790316,3830965,3769153,2925806,2230227,3233495,2433444,2317752,1035159,1069612,738264,2081652,2642008,3277196,3595207,3532237,4898485,5858776,7766846,9207178,9340966,10704428,11358381,13407610,14898501},
{-30149969,-30042732,-29048744,-30378454,-31365946,-35597836,-42853947,-46636925,-48359604,-50559597,-52618774,-54471428,-57015675,-58311806,-59885468,-61453590,-62797874,-62174698,-61643982,-62219845,-63675442,-61752922,-60231853,-58687813,-53270233,-51372608,-50221016,-49401775,-48483601,-47142551,-45927143,-44544209,-42459774,-39970779,-37499626,-34800228,-31634504,-28605604,-25237751,-20880474,-16430298,-13737535,-10887145,-7958392,-3421606,2898622,9385886,12407668,13782330,16694918,18646181,20692450,23059452,23265985,21712221,20146870,17682688,18549946,23960346,32664333,39852810,45741367,47547550,49142803,49892956,51317657,51683971,51837078,52220924,52102646,51589382,50560375,49615112,48750378,47666626,46664215,44810009,40584049,38009827,33943207,31405918,28722971,26429451,23880451,22539577,21594965,20756903,20281597,19878166,20432987,20017616,19401281,18885664,17971424,16259678,15833729,16194574,14842158,13701978,12889183,12134480,11246679,11063520,10984149,9786266,8437729,7527617,5925814,5822912,5435547,4410090,2062303,1003639,-339114,-381726,-1086966,-2632907,-3536123,947048,-4615355,-8024844,-8316052,-9072757,-10128483,-8912249,-10000338,-11129606,-12272196,-12715369,-12454689,-12195724,-12031937,-11332899,-9173606,-7700142,-5707731,-3637339,-1795889,296752,1697457,-4725596,-7697434,3625034,1843481,1988709,2604585,2880299,2348715,1192713,4771940,4778028,4292791,5006229,4962239,4355861,3822834,3625200,3784134,2972793,2548595,2020838,2773985,2486134,2178432,920490,1222053,861727,2138029,2947789,3088127,3455222,3651684,4733921,5914845,7827572,9283670,9363554,10699092,11412229,13495816,14898501},
{-30149969,-30030207,-29005415,-30282913,-31336393,-35576824,-42990913,-46688465,-48537457,-50746708,-52704304,-54592262,-57302784,-58487022,-59693119,-61992233,-63413101,-63111485,-62310757,-63797344,-64100853,-62731220,-61035820,-58909237,-53520741,-51348137,-50135044,-48961487,-48161213,-46994286,-45391914,-44160603,-42234703,-39573719,-37267525,-34671204,-31640518,-28625418,-25526745,-21144611,-15136745,-14714887,-11742450,-8255383,-3621331,2691775,9662368,11850680,12876641,15234681,17020845,19482908,22125027,23361786,24198711,24995224,24783785,23755325,20596912,19076395,26436117,34871372,40721729,44533825,47449852,49431652,51066212,52285419,52934700,52658825,51714035,50538353,49168709,47757267,46473267,44990376,42833221,37019104,34751057,33214584,29653076,27206436,24877773,22440144,21227087,20588373,19863293,19967026,19372444,18895889,18955816,19365854,18062145,17081930,16251709,15974119,15790255,15431873,13258419,12070292,11516877,11188585,11364280,11306738,9644192,9046646,7471110,7437118,6379773,5530542,3824177,2021183,1480500,727597,69123,-740935,-2149038,-818792,-1946577,-5984094,-7678442,-8197148,-8920260,-10396721,-10451054,-9747826,-11544387,-12696211,-12505342,-12439473,-12520313,-11831351,-10741055,-8833327,-7398921,-5487601,-3042845,-1179866,692731,2019620,-3481906,-8220224,4909223,2304868,3003646,3404401,3079649,2651199,2379507,5932070,4940105,4450455,5631680,4676290,4577789,3922591,3918010,3202172,2529830,2088180,1583987,2356425,2028771,1785984,850674,1577802,686340,2002930,3074141,3166942,3293173,3684126,4658315,5886095,7846978,9368499,9369282,10683414,11436625,13584193,14898501},
{-30149969,-30018499,-28963572,-30197248,-31347311,-35758057,-43101807,-46701530,-48706177,-50904163,-52748474,-54672409,-57420425,-58512650,-59576748,-63123730,-64326309,-63908676,-63384396,-64618195,-64267975,-63292370,-61811935,-57120716,-53493725,-51272377,-49989658,-48707546,-47715664,-46463142,-44791836,-43335075,-41959972,-39515873,-37078678,-34612415,-31477743,-28742174,-25679934,-21842278,-17075277,-15749353,-12392228,-9007698,-3883424,1208812,9062657,10599456,11564792,12985910,15146371,17345818,20709663,22499743,24292122,26220045,27435661,27995052,28469549,28083073,25064734,22801556,25042803,29285954,33469433,38829918,44637688,50887012,52429916,52835297,52148388,50589081,49215069,47056698,45248302,43619148,38055470,35858063,33937157,30969812,28571079,25707005,23629673,21321051,20235935,19432177,19140238,19211273,18752563,19337532,18473377,18081255,17701437,17232225,17293493,15844457,14802560,13876475,12457848,10950542,10579494,10915070,11101248,10124335,9243593,8379026,7787124,7084541,7996274,6144938,4165745,3220282,2138298,1641848,587518,-405657,-2039057,-1247710,1690736,-5151678,-7219794,-8157185,-9464872,-10070794,-9845651,-9921957,-11538681,-12678703,-12433536,-12862741,-12444828,-11594959,-10510016,-9187867,-6909272,-5081324,-2736132,-663350,990766,1901936,-2165687,-8803378,7857021,3047136,3710917,4213085,3093552,2977207,3809469,6328084,5432388,5563850,5730039,5204896,4585832,3800838,3570535,2742808,1903425,1687396,1113603,2011934,1391248,1252792,782799,1884803,189841,1614547,2892025,3360553,3004610,3465662,4544131,5873721,7825001,9481267,9358575,10656389,11441356,13670843,14898501},
{-30149969,-30007620,-28924978,-30134125,-31383236,-36079922,-43189461,-46688103,-48855064,-51029522,-52761429,-54719067,-57325054,-58400524,-59540958,-63387691,-64821022,-64678444,-65007080,-65019836,-64320541,-62898106,-62132717,-57179688,-53288498,-51147934,-49663818,-48782562,-47759296,-45883415,-44491322,-42850170,-41627876,-39376465,-36989479,-34288876,-31482824,-28730547,-25782873,-22503412,-19380812,-16434864,-12929971,-9607972,-4535314,-197602,6403844,9021870,10409671,11716934,12832962,15688540,18223854,20384960,23014044,25556129,27354147,28666641,30040203,31008512,30884029,30443722,29964287,30244789,33500816,28003841,24037096,29748560,43920166,52365421,51525608,50016964,48283367,46215038,44270187,41577068,36433125,33600639,31193001,29581377,27468607,24460947,22303272,20659611,19415644,18693224,18818188,18532156,18909246,17193811,17741337,17371267,17230644,16543636,16294353,14592316,13100209,11633279,10646372,10406212,10500033,11510744,10862475,9676637,8974526,8042056,7930441,7623785,9381879,7236205,4875661,3895350,2801567,1967627,1523856,118405,-642174,-3354795,-3496944,-5742355,-7166503,-8381443,-9710339,-9956555,-11104881,-12216158,-12251848,-12510913,-12503908,-12757786,-12180456,-11182453,-10368376,-8784812,-6360964,-4595615,-2592422,-457025,1543714,2714045,-394569,-10153908,8371759,3828460,4400065,4817441,3216573,2619600,4186344,6934672,6726643,6733039,6278433,5490451,4758146,4238412,3350392,2246798,1595456,1270699,926631,1769730,1188113,767174,796606,2276062,142388,1353753,2670781,3031414,2935255,3218288,4345570,5773316,7800335,9605422,9334979,10640125,11432401,13753764,14898501},
{-30149969,-29997467,-28890379,-30081659,-31447157,-36736450,-43266823,-46648735,-48979992,-51122089,-52752956,-54745045,-57105064,-58375694,-59400478,-63242416,-64987137,-64709892,-65614998,-64833267,-64160072,-63433006,-61383251,-56452763,-53511105,-51024612,-49477821,-48333748,-47069359,-45840473,-44408627,-42808586,-41524364,-39302265,-36684837,-33855545,-31114195,-28431030,-25872139,-22600002,-19680828,-16417711,-13216757,-9808893,-5400865,-1136999,3554865,7050987,8667608,10125729,10470238,13171824,15906488,18715919,20880341,23638189,25727425,27238651,28715616,29659792,30600094,31457586,35207050,33573730,34231068,33834579,31774506,27974689,25286777,35511089,43176693,47400101,46882534,45486408,42460789,38431213,33058292,31651716,30293497,28137833,27423697,24348528,21231766,19803764,19203953,18124617,18394629,18189978,17649403,17353043,17272038,16724863,16167072,15970871,14948394,13281114,13288067,11358588,10233221,10135983,10671404,10958985,10492505,9806758,8961565,8340774,7677381,7825246,8815105,8948147,6072414,5111442,4287465,3601448,1948849,617051,8421397,-2923645,-4467360,-2505283,-5066330,-8279980,-9504361,-10572567,-11803604,-12448121,-12847013,-12772888,-12534041,-12470350,-11942821,-11064420,-9844750,-8270032,-6081305,-4115174,-2329203,201620,1962355,3488717,1339683,-10330581,7835214,4702007,5033219,5440118,3627170,5676994,7215826,8003080,7784209,7157206,6730019,5772425,4930675,4388521,3518419,2150248,1396278,996529,1000279,1681076,1002008,470505,856662,2819306,330677,1319028,2495960,2688920,2936287,2975794,4128787,5540208,7794056,9757225,9328179,10635532,11411686,13831209,14898501},
{-30149969,-29987902,-28859009,-30026880,-31541826,-36998013,-43328789,-46590706,-49076130,-51181141,-52736874,-54773026,-56864613,-58564499,-59316135,-63099110,-65010620,-64841034,-65417412,-64479286,-64024216,-62938576,-60498814,-56102493,-53394890,-51020897,-49205395,-47883965,-46454651,-45337730,-44260834,-42714142,-41231266,-38953278,-36087765,-33433380,-30845297,-28182718,-25321623,-22160822,-19174246,-16566263,-13605037,-9940085,-6264972,-2900791,1584286,4519604,7399009,7325144,9366977,11772195,14348874,17050428,19703930,21667795,23285591,24392595,25777828,27873957,29814404,30775684,31858912,32629860,33908573,33912586,32739285,31389954,29844776,27422344,23779394,26068718,34051815,36638794,34213264,25949511,31364717,29315687,27502304,27455065,26370605,23381338,21909288,18926172,18186884,18319454,18775249,18013330,17681664,17182924,16519957,15775272,15487422,14912425,13995321,13141781,11764586,10863615,10518537,10263237,10216927,10647738,11321774,10119490,8876865,9630661,7874753,8217904,8713050,8517913,7924442,6025664,5526043,4478570,4476936,540942,1698501,-2589737,-2822943,-4017796,-6200822,-8110761,-9458747,-10905531,-12128483,-12687455,-12977038,-12946288,-12829144,-12248814,-11577795,-10714399,-9313837,-7558003,-5752660,-3848025,-1742834,507039,2771666,4165219,1978954,-9618032,7499549,6684497,5879538,6337205,4279007,9795730,9388149,8830142,7821581,7485326,6826461,6009266,5135449,4526834,3731356,2154911,1245894,880566,1278308,1844634,828177,315824,1146285,3330637,335365,1372859,2255215,2740971,2655674,2904816,4008864,5345379,7790535,9893099,9359540,10624582,11382415,13902034,14898501},
{-30149969,-29978819,-28830173,-29977530,-31658924,-37315308,-43398067,-46525425,-49143829,-51209843,-52724693,-54817062,-56778107,-58789253,-59437294,-62881397,-65353333,-65347481,-65390823,-64305489,-63465923,-62517159,-59652935,-56106190,-53251472,-50798580,-49171780,-47383419,-45865223,-44929943,-43579727,-42284931,-40957127,-38455635,-35561222,-33058170,-30573317,-28006235,-24687973,-21565002,-18832722,-16628096,-13731299,-10397198,-7297774,-4166293,51260,2816115,5513390,6462511,8229264,11099826,13416070,15658402,18095501,19805479,20823961,22650328,24660650,25915003,26713474,28464386,29957838,30888128,31283766,31353848,30855637,30493296,30398481,29882387,29023449,28796011,26343527,23902079,22274254,27180117,36555855,28241219,26591084,26457949,24579296,23017332,20641232,19536592,18675381,18150322,17489124,17974865,16746929,16359404,15415856,15282153,15114677,14053718,13788831,13153200,12156813,11333571,10955868,10811370,10760795,10730229,10736258,9775272,10020129,8224072,7919724,9108983,8732676,7926520,8184287,6813571,6272092,5434381,3825257,4614374,4472636,-1432972,-1788155,-3048304,-5649692,-7781658,-9535830,-10983460,-12244713,-12892946,-13295729,-12922822,-12647995,-11883024,-11319534,-10389267,-8804356,-6923665,-5663306,-3699446,-1562151,684340,3454119,5045574,3263385,-7606097,7364769,8376551,7108488,6648346,4801235,11008948,9759087,9587211,8724128,7830276,6897154,6241018,5477064,4318807,3790714,2149081,973813,934265,1516797,1595419,799618,142268,1591864,3704047,130556,1483207,2276906,2619977,2439634,2907521,3966728,5158660,7715888,9995709,9391669,10608974,11351733,13965919,14898501},
{-30149969,-29970228,-28804161,-29940498,-31779346,-37380772,-43459167,-46460381,-49187553,-51216145,-52725319,-54890396,-56959938,-58848213,-59692890,-62599895,-65664680,-65738205,-65194740,-64665344,-63346741,-61783913,-59049431,-55853546,-53025345,-50738728,-48653641,-46873264,-45585880,-44918079,-43228107,-41932934,-40268051,-37817558,-35092216,-32614841,-30209606,-27593983,-24258863,-21078218,-18614172,-16451965,-13805558,-10885993,-7712922,-5061306,-2106969,2090881,4496817,5680566,7111758,10122922,12776926,15464719,16515236,18593803,19724533,20424801,21350857,22976057,24697981,26326023,27182421,28652315,27841557,27716490,28041996,28091570,28262346,28395828,29047356,29225639,29583364,29002619,28382597,28787209,29210625,25347086,24760685,24814737,22483501,21493622,20234459,19190517,17728264,17284647,17583410,18084532,15928057,15759455,15398163,14838501,14075198,14167953,14018877,12976210,11891348,11258361,11050835,11443280,12120251,11032551,10606091,9779679,8955192,11148381,8604639,9400377,8738787,9613916,8806512,7763823,7405121,6660066,4333418,4918246,5156846,-297754,882843,-2439441,-5307648,-7774025,-9703678,-11028723,-12434365,-13053352,-13521482,-12898063,-12203322,-11633322,-10919642,-10075552,-8540523,-6848855,-5719110,-3688239,-1155910,1245549,3766611,5684565,4838394,-5090076,2697434,10372609,8464088,7363194,7359890,11269961,10476371,9969470,9311384,8017155,7063068,6642581,5828570,4246512,3776251,2270798,883958,1194353,1348563,2025050,918051,-68440,2192210,3914345,364622,1678360,2354806,2349876,2362970,2845903,3932033,5159194,7571868,10065595,9406081,10599979,11327536,14023375,14898501},
{-30149969,-29962278,-28781240,-29909655,-31927984,-37390743,-43529072,-46400143,-49212811,-51207378,-52748066,-54987988,-57235580,-58956413,-59700138,-62662727,-65945084,-65955437,-65163773,-65199806,-63334270,-61627705,-58385303,-55707417,-52859158,-50493279,-48336086,-46481781,-44995323,-44021896,-42780807,-41411648,-39529106,-37223068,-34726620,-32226379,-29652361,-27021461,-23696348,-20975550,-18747635,-16285952,-13919750,-11382555,-8697536,-6058806,-3377663,517474,2589489,3988616,6373634,8793835,11324343,14883700,16028793,17001101,17445221,19013113,20084337,21544615,22565302,23351730,24609121,24657579,24807877,24748295,24911829,25107483,25748522,26045835,26486977,30124426,27171537,27564621,26270815,26260118,29553072,24332571,22922899,21916058,21344212,20385807,18872736,17864681,17207132,16557081,16428673,16659288,16158464,15765608,15321181,14688009,14008431,13797669,13222682,12430607,11831358,11334550,11745623,11477677,12119019,12566417,10701009,9749403,9679157,8600235,9569448,9392987,8853961,9840595,9855112,8575470,8245646,7302898,4704003,7163142,3227495,977437,-385117,-2396193,-5281028,-7976710,-9801613,-11192791,-12476107,-13151363,-13354939,-12746467,-12156115,-11225595,-10758309,-9994520,-8627090,-7013779,-5314968,-3296759,-779023,1618500,4015482,5751952,5585386,-1574747,838626,12892170,9847282,9054215,10041349,11929187,11032028,10680001,9689555,8319832,7165969,6812547,5728215,4433840,3442773,2293084,639769,1346891,982256,1907785,994801,-212225,2779451,3763797,1040343,1775261,2890851,2060731,2442622,2786595,3854430,5163796,7634963,10125498,9437603,10590809,11314135,14075525,14898501},
{-30149969,-29955225,-28760548,-29884766,-32110542,-37667332,-43595749,-46356922,-49224178,-51189278,-52790707,-55099560,-57386848,-59003181,-59513268,-62838642,-65865028,-66136070,-65103172,-65063889,-63615879,-61269985,-58363144,-55500881,-52681892,-50192322,-47905704,-46094864,-44491177,-43315010,-42398148,-40874413,-39084171,-36623535,-34413078,-31657572,-29265381,-26619802,-23625124,-21072149,-18831646,-16405701,-14007186,-11640986,-9253820,-6812274,-4255169,-539725,2099421,4694868,6111588,8035643,11529650,12788081,14206115,15726206,16355827,17677153,18720934,19594248,20731049,21452333,21874208,21598204,22220772,21808252,22313108,22712769,23077600,23387787,23223692,24792561,24864769,24086006,22808706,22869978,23554546,21572569,20648224,20561039,19851633,18938042,17989725,16539722,16854794,16864790,16911240,16346962,16544878,15380451,14815570,14350664,14449649,13568275,13246822,12579372,12238144,12081025,12525849,12033213,12386064,11672837,11608625,10643096,10452372,9901523,9757663,9101778,10840992,9454461,9500887,8914228,8669533,7235963,5786237,6392082,4717783,2041341,583908,-2234784,-5352692,-7900945,-9869473,-11225672,-12443410,-13128146,-13349743,-12856804,-12081006,-11240517,-10461085,-9791038,-8445445,-6712967,-4623887,-2909203,-630004,1492702,3978051,6075234,6645064,2420709,-2029607,14194618,10954730,10493416,11507381,12320461,11334163,11349581,10031983,8857712,7362500,6995250,5677921,4583852,3736751,2213095,750202,1255052,977747,1810510,892106,-185671,3028035,2878190,1667947,1773177,3757274,2049351,2658444,2786707,3785255,5249144,7907869,10161009,9488973,10575704,11311837,14123735,14898501},
{-30149969,-29949326,-28740698,-29871832,-32330540,-37982597,-43670910,-46329655,-49229660,-51167156,-52849358,-55203491,-57335747,-59049492,-59031078,-63140469,-65640343,-66283501,-65036148,-63844391,-63517715,-60347660,-58223297,-55439518,-52589012,-50037930,-47646439,-45640873,-44163280,-42928886,-42140598,-40375050,-38479248,-36440784,-33930431,-31244690,-28919449,-26135189,-23639105,-21239464,-18701794,-16294542,-14047297,-11893214,-9701237,-7622645,-4511887,-2074837,732476,3513284,5684464,9294081,11810240,11650382,13749848,14517900,15526601,16040380,16784409,17654039,18702560,19174299,19327574,19239208,19630846,19519827,19771551,20017849,20601948,20431494,21501631,21150602,21071253,20292370,20155481,19852194,19576202,19595173,18479179,18698616,18420664,17593422,17237734,16886721,16903479,16934265,16752289,16428102,15563549,13677071,14958963,14641241,14098471,13851646,13793906,13298308,13173796,12437298,12555069,12539211,12353107,11942238,11874318,11569911,11041958,10382345,10125157,9982651,9186701,9265031,9203955,9166360,8717839,6623257,7267268,16599405,4517383,2627363,953047,-2370179,-5679267,-8002619,-9986230,-11117798,-12153110,-13126062,-13714345,-12736799,-12110528,-11427742,-10697213,-9927937,-8410298,-6729620,-4420626,-2729482,-332518,2130993,4212522,6235869,7408147,5370067,-2236143,14086720,12683349,12258678,12946670,12670758,12013512,11785442,10892748,9364828,8130395,7102367,5758653,5190979,4151208,2274457,765915,1335521,995994,1351152,865296,26980,2715441,1839709,2048457,1972987,3871155,2190734,2641015,2784258,3678632,5326772,8188273,10155099,9574409,10567881,11319491,14169193,14898501},
{-30149969,-29944748,-28721231,-29870661,-32585060,-38361481,-43739803,-46324654,-49233570,-51141304,-52912739,-55273727,-57165421,-59109322,-58467278,-63360123,-65480492,-66125465,-64983505,-63503586,-62792515,-60173416,-57885155,-55165817,-52176361,-49855389,-47391560,-45292721,-43775032,-42659649,-41620193,-39636276,-37813858,-35860912,-32835983,-30663429,-28665783,-25972189,-23654781,-21102150,-18588993,-16082409,-14048108,-12071978,-10226499,-8009566,-5278649,-2414694,631173,2496493,4872696,8677380,9157352,11076064,12190634,12944207,13553893,14401799,15034968,15833004,16570107,17180752,17272778,17508421,17390465,17112209,17219296,17781597,18070225,17689436,18040739,17944365,17778740,17441946,17162483,17499210,17255548,17186384,16983158,16747202,17292721,17093637,16904108,16755116,17467958,17229242,16408646,15950193,15727617,16010756,14751246,14445383,14191160,14036673,13565428,13183615,13391137,13439841,13123754,13462724,12488759,12813854,12444634,11848172,11168795,11668818,9820858,9444777,9072151,8786063,9215152,9797831,8940503,6385215,12205750,7859589,3151448,2951680,718027,-2402287,-5394841,-8053023,-9906713,-11033116,-11413125,-13126214,-13722626,-12749246,-12176140,-11576062,-10724838,-9700602,-8083159,-6821865,-4560383,-2538273,-331437,1958490,4441632,6653980,8078409,7558784,-812196,10321367,15509290,13995682,13192597,13268682,12435902,12365728,11580724,10147167,8636672,7110802,5826965,5906098,4513877,2349412,1035864,1282607,1432279,1066821,581807,85358,1672596,981991,1941634,1983819,3605450,2368652,2425295,2700851,3548926,5385609,8280573,10123319,9675774,10575247,11336183,14212600,14898501},
{-30149969,-29941477,-28702780,-29881199,-32862064,-38718082,-43817825,-46350029,-49240601,-51116756,-52969601,-55282532,-56960957,-59239468,-58376678,-63410088,-65440979,-65739609,-64713982,-63551151,-61833305,-59864891,-57591301,-54841927,-52291771,-49671352,-47206585,-44765350,-43204662,-42402420,-40774113,-39298149,-37005074,-35032486,-32609741,-30616045,-28198814,-25832603,-23386133,-20987577,-18539356,-16196661,-14166756,-12342642,-10320635,-8370794,-5506584,-2439430,123121,2143611,6785716,6375394,8167891,10228921,11034689,11651620,12188908,12454977,13072766,13952676,14988170,15236497,15264937,15208986,15333620,15284267,15540431,15760432,15520077,15682236,15989223,16035475,15814942,15716952,15819084,15584301,15777418,15487779,15508703,17343178,16054085,16033430,16797556,16975237,16863903,16747847,16965038,15999260,15319201,15015760,14408919,14748555,14355301,14167178,13688046,14088093,14222446,13656565,13454597,13724963,13950899,13302078,12680630,12058718,10821980,9607290,9647095,8986359,8302519,8339780,8882189,9648617,8899819,7331089,13851812,3471573,3800752,2839115,352116,-2594894,-5517236,-7876471,-9908881,-10943574,-12040565,-13026334,-13127434,-12728264,-12110665,-11517654,-10977160,-9397991,-8289959,-6657377,-4506043,-2332498,-438162,2024138,4578129,6771737,8622948,8978104,2703034,3492971,17613718,14604060,13874153,13911781,13094409,12536101,11934601,10402836,8936515,7339201,6188392,6816149,4886339,2502646,1487009,1069242,999402,788450,568933,102986,988591,273075,1606349,1576072,3125588,2572524,2045446,2637242,3533657,5354739,8181728,10112319,9739339,10591187,11361260,14254050,14898501},
{-30149969,-29939299,-28685848,-29904919,-33212696,-39034733,-43886604,-46389072,-49251122,-51087151,-53010441,-55212399,-56903484,-59456028,-58864624,-63442818,-65282494,-65456223,-64254692,-63173481,-61498203,-59297527,-57254318,-54451321,-52194775,-49425583,-46961372,-44324791,-42637405,-41838665,-40564377,-38673744,-36675087,-34330311,-31872393,-30131678,-27624163,-25387247,-23041536,-21047684,-18273506,-15962560,-14070872,-11910585,-10522395,-8490267,-5579405,-2603474,-654833,4928606,3168351,5812313,7266758,8446377,9672645,10593485,10761729,11322497,11412951,12161754,13808925,13723264,13505555,13418966,13665873,13740522,14199430,14217278,13731393,14203450,14657874,13705087,14186811,14112180,13709301,13755014,14326275,13806016,14778435,14714688,14887436,15303842,16482521,16284533,16076611,17592655,17537073,15736888,15072989,14483232,14697968,15340090,15021900,15164762,14060272,14504227,14225175,14199917,13485492,13723121,14393359,13048607,12051233,11702595,10060072,9693167,9317420,8353996,7598205,8055418,8770938,9362369,8760306,8348205,8900787,4153440,4214287,2634754,-33336,-3087725,-5730447,-8137310,-9656126,-10865687,-11963241,-13036441,-12986985,-12819839,-11983496,-11454515,-11163492,-9838581,-8433794,-7062693,-4708550,-2673172,-431973,1872941,4400887,6809658,8794536,9853586,6134341,974165,17568748,15620786,14712602,14414472,13852096,12953543,11677236,10737789,9422380,7821160,6610805,7226521,5140129,2781578,1566187,985058,621569,506895,555132,-35226,800386,456239,1612411,1668073,3103863,2412795,1592332,2596979,3502795,5297661,7908206,10127585,9808517,10617590,11394569,14293134,14898501},
{-30149969,-29937862,-28670059,-29938419,-33451180,-39352821,-43942730,-46454300,-49262466,-51052998,-53026047,-55058044,-56839348,-59572803,-59775497,-63471249,-64964630,-65242157,-63820122,-62557186,-60996460,-59112671,-56797192,-54190769,-51919918,-49178059,-46666725,-43968250,-42247803,-41398930,-39849403,-38123337,-35918652,-33833450,-31684685,-29707804,-27519907,-25219616,-22962212,-20647299,-18250584,-15792568,-14062935,-12009289,-10625144,-8367648,-5475194,-3208531,165663,1600017,3153459,5223551,6436001,7636011,8730098,9293538,9367165,10073175,10945869,11625505,11856216,11802007,12216292,11992792,11861650,12109365,12396650,12620955,12590928,13645818,13233209,12637505,13728128,12141711,12476374,13034580,12874201,13347978,14548488,14816981,15796937,15207570,15340616,14716528,16146559,16514612,16977985,15344366,15169126,15167192,16001520,15109971,15464706,15137070,15123647,15267710,15382424,14611566,14474768,13777567,13672523,12915484,11060374,10735332,9662097,8885139,8359908,7867816,7683075,7774217,8688161,9075543,8269407,9466515,6624861,4134902,3809551,1785936,-747589,-3534988,-6399381,-8145049,-9399701,-10559655,-12341063,-13011547,-13246831,-13059294,-12120144,-11710886,-11319606,-10408091,-8744868,-7399284,-5180688,-3068813,-357985,1925448,4247820,6689713,8847654,10302120,8354681,1145055,17167608,16646923,15076191,14940089,14267027,13358727,11792811,10876360,10132007,8572017,7122354,7155249,5401210,3302658,1920027,1365924,342470,357450,513294,104935,852619,180962,915330,1730228,3059097,2399657,1209757,2497560,3543957,5359546,7796345,10045279,9887960,10662349,11436929,14329202,14898501},
{-30149969,-29936796,-28654858,-29979502,-33457756,-39664276,-43996315,-46527916,-49273880,-51008373,-53012882,-54827778,-56731945,-59449120,-60732166,-63518444,-64589073,-64915916,-63552708,-62298656,-60952156,-58897125,-56297207,-54100189,-51785168,-49024136,-46603237,-43617355,-42012352,-40695770,-39121063,-37527153,-35076370,-33074757,-31146938,-29474632,-27047909,-24699949,-22536589,-20394032,-18248489,-15908270,-13647962,-11925150,-10393806,-8168221,-5370379,-3195629,-288163,663526,2816006,4276548,5300021,6254425,7146676,7882247,8173134,8969942,9540169,10135402,10363020,10290626,10459662,10366188,10109402,10492707,11247846,11808548,12334887,12424413,12416504,11817639,14189519,11829312,11733308,11978826,12767680,13773740,14169834,15066208,15426198,15081436,14708389,14576349,15174076,16949432,15782454,15317880,15104703,14972095,15629717,15563755,15936704,15674718,16506105,15950287,14996764,14406502,14272083,13517979,13203206,11723213,10616248,9743059,8701203,8767294,7665401,6828001,7194099,7656815,8629047,8815187,7897574,10145725,5065681,4076237,3211771,1123152,-1558865,-4244598,-6647760,-8210038,-8878186,-11156039,-12633341,-13396763,-13671480,-13394080,-12581743,-12399973,-11860529,-10821982,-9341178,-7889081,-5608404,-3091153,-216929,1948619,4138781,6396876,8592875,10550559,9753493,2070066,13308185,17331167,15197695,15269746,14714485,13713241,12687792,11251282,10592755,9558329,7503349,7039062,5820451,3788064,2844172,2552404,-106697,268636,652673,125347,722365,-735498,-332447,431107,2600916,2390007,812973,2433454,3611956,5291543,7870641,9939661,9982188,10720978,11488906,14361674,14898501},
{-30149969,-29935833,-28640446,-30024536,-33494957,-39944881,-44021599,-46608921,-49282932,-50954025,-52975449,-54535919,-56473759,-59059166,-61496952,-63364998,-64358185,-64578522,-63287891,-61881126,-60655468,-58693783,-55791878,-53909534,-51453632,-48861897,-46460140,-43429451,-41727821,-39996189,-38739922,-36726097,-34201160,-32459160,-30170095,-28529699,-26422934,-24379707,-22332249,-20050552,-17992571,-15878578,-13851262,-12313805,-10353451,-8058113,-5490648,-2664028,-1479205,429331,2018493,3553437,4577503,5655750,6124329,6445349,7051888,7742789,8409558,8424012,8776232,8741696,8749341,8804875,9122448,9974521,10969875,11462976,11281415,11833220,11143427,11096232,11568603,11564364,10664001,10572326,11831697,13231474,14633414,14904746,14069626,12992125,14291616,13558996,15337596,15122475,15190852,15000738,14551303,14913958,15971328,16152195,15272203,16418783,16898302,15679233,16608536,15815062,14333053,13047380,12385698,10884778,9797606,8650387,7678796,7311123,7030792,6493960,6572730,7084505,8316831,8182170,7525604,13496225,5343611,4124881,2991759,442344,-1551428,-3954798,-6995981,-8121497,-9482033,-11687817,-13063679,-13793282,-14131685,-14045493,-13087214,-13032454,-12178213,-10939201,-9790982,-7952409,-5763689,-3256745,-437310,1748863,3739262,5927916,8257007,10609035,10953395,4667723,8608294,18106264,15500958,15248114,15408494,14640083,13020480,11865071,11007065,10478386,8397354,7813238,6245289,4198590,3468079,3481530,-456955,2952,1201836,-189778,23874,-1016784,-459862,1376754,1113855,2128289,599122,2268985,3620238,5311203,8102450,9893484,10076756,10789582,11548200,14390263,14898501},
{-30149969,-29934914,-28627533,-30060270,-33560856,-40185081,-44035801,-46687382,-49277538,-50887554,-52920631,-54222782,-56094891,-58501873,-61826180,-63059128,-64064720,-64257652,-62936600,-61709064,-60309372,-58454517,-55614361,-53637337,-51481823,-48752834,-46061951,-43169930,-40998619,-39487820,-37894341,-35951656,-33871399,-31786989,-29709818,-27809259,-25904316,-23971647,-21805653,-19763697,-18048223,-15947904,-14302133,-12214807,-10020545,-7911476,-3999935,-3801365,-2053160,-354463,1418667,2965150,4391104,5037756,5236744,5540821,6445879,6992333,7021049,7022360,7143037,7394885,7570643,7565836,8319435,9145531,9998857,9974518,10845768,10899313,10219792,10480750,10428777,10054033,10295750,9769586,10580096,11809529,13006688,12215936,13238210,12515466,12496234,13259961,14129081,14551930,14468153,14710978,14864799,15426580,15753083,15784035,16109642,16784445,16227045,16459864,16909155,14823435,13629864,13470325,11414287,10091761,8962588,7904451,6659182,6300875,5908976,6269583,6712046,7580299,8103292,7485882,7740575,7363103,4498875,3623546,2405611,221112,-2134478,-5624478,-7762536,-9366210,-10682207,-12332733,-13607378,-14199717,-14492329,-14628811,-13972169,-13174006,-12464357,-10977250,-10161511,-8281083,-5994158,-3737914,-1141575,1213074,3447958,5635942,7802892,10481698,11809659,7230674,7342941,17511675,15372451,14842587,15503283,15267977,14086680,12319081,11326284,11068642,9247774,8130491,6640982,4980715,3912585,3834961,-561048,-406784,1125252,-288900,-939616,-1175319,-504702,765446,1357182,1865328,517946,2084193,3622986,5421295,8373849,9911049,10079105,10873378,11609198,14415041,14898501},
{-30149969,-29934195,-28616299,-30078777,-33616184,-40390675,-44024353,-46759350,-49255810,-50808212,-52861607,-53913540,-55710823,-58006729,-61754974,-62816799,-63767399,-63992748,-62628109,-61393990,-60213604,-58223267,-55730473,-53862850,-51542873,-48576160,-45652637,-42817795,-41056629,-39004269,-37318722,-35084095,-33157124,-31262287,-29272305,-27034716,-25501614,-23419170,-21380640,-19493282,-18389353,-16311832,-14289510,-12190229,-9707778,-7766902,-5417242,-4290751,-2258571,-869470,1084681,2722842,4126512,4048400,3945741,4972412,5409157,5692672,5935130,5883435,5657348,5965848,6340418,6902051,7419936,7978730,8337440,9060361,10174355,11027360,9350574,10816149,9052020,9480981,9202749,9018757,9243347,9637718,10644200,10934185,10778471,11049526,12013586,12416574,13062581,14038741,13954048,14410245,15316380,15457977,16128002,16065126,16855886,16857967,16489161,16431498,15647323,15191250,14067803,12144609,10546964,9209352,8149512,6950702,6108440,5443278,5314308,5645273,6861298,7578227,7572252,6800114,15622686,4733980,3795851,3272058,1870257,-415138,-3327391,-6535599,-8672516,-10177133,-11305016,-12872224,-14099725,-14627944,-14850166,-14829918,-14261275,-13755122,-12981060,-11479711,-10318039,-8561835,-6507141,-4129933,-1824037,460027,3062468,5278186,7491691,10165255,11447658,9298591,8352267,17388828,17258238,14437608,15363640,14974130,14982862,13499854,11508899,10705535,9660646,8834886,7389395,5397811,4157608,3953990,-540654,-832099,689216,330076,-2450082,-1730639,-724693,-78529,641778,1522545,379663,1963720,3709629,5679723,8435599,9965672,10096735,10967687,11666387,14436344,14898501},
{-30149969,-29933996,-28606113,-30085222,-33803085,-40556194,-43985508,-46810303,-49216702,-50719727,-52810421,-53635258,-55373966,-57671341,-61641373,-62592716,-63485050,-63778149,-62532078,-61339279,-59865482,-57855743,-56064529,-53752907,-51033524,-48267509,-45244110,-42520218,-40180290,-38440041,-36574848,-34423374,-32466179,-30393063,-28757847,-26636221,-24903818,-22989944,-20998770,-20134645,-18006092,-16400227,-14343041,-11827490,-9699385,-7345197,-6509363,-4311108,-2495324,-1144650,858276,2706062,3187726,3108107,3252258,3503519,4153709,4665720,4551116,4387369,4329562,4618189,4982089,5497914,6147879,6831691,6957712,7655069,8668892,8862296,8843334,9456349,7848435,8120418,8439864,8284893,8229945,8969315,9493761,9315417,9755607,9658629,10690252,11776869,12330900,13186347,14265749,14577354,15472708,15585258,16832481,16766045,17063412,17901829,16993519,16775066,16116484,14607523,12971550,11392323,10065080,8454139,7794203,6506040,5252876,4665176,4637622,5550101,6972819,7464077,6646561,6166463,10419967,4287410,3767115,2807321,916821,-1916193,-4708239,-7415053,-9476533,-11077091,-12258578,-13409791,-14657907,-15093879,-15250192,-15121013,-14667212,-13587011,-12953142,-11784371,-10361817,-9222778,-7240465,-4874950,-2632284,-185336,2250648,4747601,7246150,9688865,11083640,10477893,8264718,15626994,16353653,14308425,14711803,14929757,14199417,13118226,11745288,10254838,9725994,9115620,7578363,5752566,3711059,3721427,-563373,-764637,654162,-120389,-3792049,-1565543,-48962,-81713,309020,783764,190831,1848385,3818052,5718657,8388411,10009993,10142874,11061085,11718277,14454580,14898501},
{-30149969,-29934668,-28596365,-30082170,-34017506,-40680473,-43926895,-46842934,-49148075,-50625481,-52775352,-53399651,-55117264,-57300190,-61162666,-62330166,-63234993,-63436504,-62182976,-60997498,-59652248,-57523003,-55768978,-53187214,-50713921,-48259384,-44985420,-42311607,-39742535,-37908699,-35962761,-33805489,-31862160,-29840225,-27995430,-26192495,-24551817,-22625908,-20752523,-20551626,-18102577,-16422094,-14169950,-11815493,-9811235,-7242136,-6835802,-4652555,-3313681,-1387952,226855,1432775,1923753,2010342,1784436,2348858,2915482,3129084,3120178,3043587,3228060,3283461,3730150,4170005,4573511,5187029,5638622,6192502,8584865,6931253,10203201,7848044,7716288,7272574,7279612,7497371,7624325,8106503,8140850,8105411,8561528,15182373,10003074,11004524,11589067,13171625,13761127,14826632,15594273,16016911,16596373,17529558,18384226,17131668,17344196,16107769,15235849,13383126,12292072,11563807,9233377,7877989,6473878,5383916,4191971,3549167,4432506,5282693,6674846,7406172,5873047,12551621,6471427,2955163,3838459,2394464,-93826,-3258517,-6035412,-8377228,-10398404,-11868436,-13130478,-14125076,-14889719,-15527979,-15648857,-15631473,-15380954,-14504410,-13153964,-12269590,-11163630,-9882846,-7885051,-5626865,-3415288,-905475,1506163,4139718,6922660,8896707,10537239,11070341,7694555,14276500,14336061,15649698,14806825,14726274,14443965,13204192,11927051,10764387,10001235,9090549,7839684,5870841,3735819,3278867,-572571,-711669,-49747,-1829360,-4444945,-2079666,-125651,16348,737293,-98734,37286,1655795,3900951,5511131,8313325,10069912,10101283,11150970,11767624,14470069,14898501},
{-30149969,-29936453,-28587128,-30072372,-34222775,-40755020,-43843327,-46847588,-49058372,-50527153,-52759689,-53205650,-54957226,-56947449,-60546188,-61959652,-62983154,-63143898,-61974022,-60820858,-59643505,-57720890,-55613770,-52788685,-50193352,-47836784,-44834991,-41628746,-39462120,-37277325,-35145142,-33353836,-31414915,-29334566,-27099360,-25736601,-24119751,-22256893,-21750734,-19904066,-18182131,-16243664,-13806233,-11755948,-9556412,-7982837,-6518050,-5224974,-3537490,-1326030,-181449,827309,815420,882456,1235631,1618853,1964705,2106556,2280029,1824300,2126746,2255657,2259109,2374617,3156674,3780030,4452059,4689616,4944548,6597878,6756157,6300768,6962745,6787866,6657855,7175742,7045487,7398506,7536469,7964041,7973093,9101203,9718090,10680185,12006808,12816967,14110536,14721460,15185765,15922740,16684603,17729923,17693079,16784027,16150471,15549717,14283834,13118313,11496867,9910444,8240517,6761115,5624010,4010002,3064125,2762629,3860521,4876005,5437348,5798180,5801824,16092829,2477229,2891291,3328042,1471419,-1826762,-4543555,-7161397,-9367301,-11269404,-12635159,-13823335,-14784283,-15379775,-15992196,-16038298,-16048208,-15773324,-15326058,-14177195,-13042073,-11847878,-10551238,-8496995,-6423991,-4020432,-1511802,594808,3525031,6184443,8026761,10157920,11469653,8548346,13024747,12964908,14941378,14689194,14954487,14907198,13499852,11951064,11587789,10273478,9028187,7824533,6818327,5071351,2834438,-601915,-815928,-1013576,-2881859,-4591074,-3151971,-1226499,-215016,604658,-673854,-46583,1584478,3800745,5317725,8311075,10208982,10097392,11238533,11818707,14482996,14898501},
{-30149969,-29939402,-28578716,-30067486,-34359291,-40797745,-43741276,-46822678,-48943371,-50426689,-52757828,-53034267,-54844425,-56591454,-60080708,-61428268,-62705475,-62914722,-61808289,-60646996,-59684761,-57483696,-55399082,-52456276,-50035290,-47488743,-44709534,-41440228,-39012390,-36911358,-34771290,-32674572,-30657335,-28916788,-26778828,-25126881,-23391956,-22014652,-21895824,-19605118,-18102039,-15825167,-13411364,-11308785,-8993276,-8342189,-6544455,-5750359,-3929836,-2209707,-687344,380393,-112064,-127273,-88344,471830,1179645,1397615,1247697,1430594,1417628,1310550,1144943,1648672,2035549,2863302,3372607,3611100,4059085,4881136,5283157,5229526,5758815,6176215,6418527,6314027,6496125,6882198,6838034,7015941,7457519,8213140,9392633,10819438,12036289,12829964,13794135,14496614,15253160,16257343,16832624,16725357,16304678,16164131,15299329,14969017,13489203,11997281,10335791,8866921,7275024,5897722,4934641,3008663,2122872,1978249,3119373,3822197,3575530,12225712,18268843,9470364,-452385,2682191,2483757,-100624,-3224942,-5919170,-8260622,-10359980,-11952666,-13071619,-14053720,-14966777,-15739976,-16187712,-16668407,-16844732,-16670696,-15985199,-14719771,-13601969,-12428185,-11206967,-9244099,-7310333,-4848057,-2363055,-117067,2753566,5358917,7263949,9736757,11806708,9524142,11655106,12001665,11602124,15082564,15318159,14917985,13952683,12102986,11504973,10482626,9888987,8114027,7528983,6598342,2669566,-461495,-1085274,-1662350,-3718947,-4737181,-3873877,-1815442,-956814,-91229,-971640,-8829,1432180,3694598,5280504,8295574,10330910,10132880,11339295,11875763,14493528,14898501},
{-30149969,-29943344,-28570784,-30067739,-34291862,-40791893,-43622383,-46772175,-48807129,-50325958,-52759296,-52855938,-54754250,-56246361,-59465797,-60999649,-62523697,-62614799,-61597626,-60670734,-59484768,-57128380,-54818054,-52097115,-49772907,-47140427,-44270599,-41069042,-38458477,-36305256,-34166862,-32199020,-29981613,-28130892,-26401552,-24742298,-23032610,-22156898,-21159149,-19419378,-17933716,-15372994,-13236173,-11575693,-9693404,-8380809,-7070754,-5728732,-4496532,-3036602,-1558175,-872195,-1306456,-1165829,-945708,-210642,584669,638643,820930,754393,643880,408644,354221,348700,1395643,1977885,2107986,2507185,3465193,3843951,4265382,4347982,4570599,5623653,6157492,6302485,5923579,5656978,5921192,6127514,7391531,8216277,10007802,10157468,11231320,12628158,15148149,14347514,15068774,15739819,15886365,15758500,15522691,14948948,14624042,14323554,12541851,11070496,9563509,7855775,6383089,5131467,3878990,2463204,963140,891599,1443023,1860255,1299539,6848369,11749222,-1011976,-120311,1822840,813351,-1866317,-4941596,-7281167,-9114120,-11113946,-12240579,-13279956,-13946312,-14932914,-15944472,-16802568,-17143711,-17569498,-17151989,-16359518,-15410203,-14410335,-12915736,-11561242,-10174248,-8177732,-5470768,-3299561,-849614,2076135,4640804,6864704,9521284,11624433,10416641,9825261,13102412,11244412,14068169,15547249,14859619,14349692,14125900,11637502,11190405,10296824,8724713,8209246,7816973,2717220,-249028,-1392915,-2058020,-4569423,-4817213,-3545636,-3087393,-527854,-198074,-784586,198133,1412166,3513689,5383692,8221192,10324232,10152267,11476307,11943588,14502043,14898501},
{-30149969,-29947962,-28562267,-30056232,-34192860,-40760830,-43488045,-46689240,-48653751,-50218323,-52746586,-52645378,-54637192,-55987583,-58570541,-60727989,-62499031,-62368603,-61351398,-60392529,-59144321,-56733551,-54770515,-52040695,-49638737,-46647568,-43885807,-40735851,-38131779,-35808502,-33543400,-31610954,-29517534,-27491594,-26161716,-24168657,-22888065,-22903807,-20352074,-19288479,-17222698,-15014243,-13300602,-11535442,-9455307,-8948028,-7994710,-6510990,-5241958,-3457036,-2150990,-1891962,-2255699,-1919078,-1388131,-1118907,-350140,-117308,409798,160898,-95303,-312490,-278014,-62917,632714,1077969,1416862,1720241,2118304,2418969,2864802,3665572,4462461,5633473,5810415,5906291,5123324,4653882,4993480,5808952,6573850,8156706,9121290,10032609,10977990,12150310,13083799,13850220,14902248,15187133,15047763,15161308,14180462,14174906,13944570,13065825,11801118,10246401,8644681,6969389,5825614,4295345,2940848,1258457,-390501,-727769,4470,139865,-452262,-1349356,-2036893,-2124891,-619207,-213703,-1690653,-4226386,-6460329,-8374420,-10093756,-11709180,-12494216,-13286843,-13974377,-15224229,-16560362,-17457783,-18205383,-18303402,-17908485,-17133789,-16196392,-15006480,-13677117,-12290833,-11171663,-9003032,-6589365,-4293674,-1550237,1413086,3722562,6128632,8895783,10985795,10982900,9103482,13758322,13100852,12233957,13676102,14711944,14639151,16224056,12326131,11678591,9709991,9293826,8919406,8039741,2849946,-18802,-1670645,-2303756,-5320590,-4809011,-3291930,-2969800,-1340403,-371784,-903814,-15328,1280670,3451318,5498760,8183086,10180362,10244609,11613641,12026721,14509328,14898501},
{-30149969,-29952900,-28552277,-30027905,-34147644,-40686470,-43349606,-46580288,-48486794,-50106293,-52701836,-52376575,-54486614,-55824768,-57583233,-60543900,-62131577,-62193802,-61038956,-59953644,-58518425,-56261272,-54565975,-51594334,-49370888,-46397629,-43192863,-40488430,-37826839,-35301445,-32992619,-31002117,-29029140,-27041931,-25517582,-23734402,-22639095,-21633078,-20354845,-18875816,-16647467,-14796699,-13100670,-11774501,-10852570,-9389396,-8216224,-7193313,-5639653,-3811223,-2997875,-2953649,-3013725,-2892220,-2438945,-1959594,-1471996,-486305,-16837,-515878,-646897,-1136052,-985562,-673030,-70086,101764,152475,647184,910809,1096577,1839303,2271035,3046440,4307733,4919778,4672284,4190792,4082719,4325664,4973476,6282387,7535305,8933188,9655605,10611113,12060154,12516950,13927972,14355027,14447215,14565369,14843845,13853616,13720244,12729406,11962735,10829021,9065363,7522770,6225599,4793672,3303349,1807156,155587,-1700698,-2126410,-1606289,-1450325,-1614159,-2448334,-2812024,-2691482,-2635026,-3144793,-4452825,-6420341,-7989147,-9447946,-10641961,-11891889,-13124391,-13794439,-14395000,-15981153,-17603624,-18625027,-19448095,-19378565,-18953878,-18205088,-17332436,-16051966,-14731583,-13221772,-12208094,-9941404,-7643505,-5169589,-2562703,535273,2816406,5292750,8236084,10225799,11110374,10384084,10443655,14401233,11997120,11707830,13166289,15477217,15093464,13377906,12172696,10102085,9719159,9271892,7704301,3092814,-71761,-1957532,-2762609,-6131648,-4900803,-3401835,-2652787,-2238696,-1419696,-1491772,-64070,1067123,3357508,5601695,8099263,10044324,10321945,11678477,12125079,14516659,14898501},
{-30149969,-29957891,-28540754,-29993942,-34104610,-40594845,-43205215,-46447266,-48319847,-49981186,-52607513,-52024525,-54263863,-55656086,-56855011,-60307499,-61748566,-62039417,-60669056,-59467266,-58041542,-56142548,-54229668,-51179653,-49084320,-46677929,-43125778,-40163872,-37517612,-35061962,-32436653,-30406151,-28494436,-26755730,-24939964,-23475519,-22780790,-21141506,-20280338,-18388216,-16333939,-14512247,-13655437,-12157559,-11276090,-9940805,-9045495,-8047631,-6359579,-4998374,-4077950,-4149828,-4071659,-3709012,-3202981,-2748470,-2154726,-1430238,-1445017,-1206385,-1496201,-1404599,-1506811,-1014711,-914612,-950520,-925841,-992171,-376258,347220,880207,2516739,2631208,5038228,4723497,3558910,3558516,3236851,3273639,4829041,6157287,7501562,8444368,9594790,10340220,10918929,12906391,13859334,13900347,13754573,14087198,14196968,13802106,12266547,11641138,10792840,9852547,7886220,6710951,5444047,3736794,2087031,685755,-1050088,-2440526,-3122688,-3081480,-3156807,-3011563,-3366522,-3810122,-4374226,-4967777,-5970851,-7041273,-8207773,-9349607,-10511283,-11425247,-12525559,-13821526,-14494870,-15427347,-17009697,-18699989,-19623999,-20092613,-20003469,-19427631,-19495407,-18208952,-16634872,-15627743,-14216497,-12881813,-10910844,-8610068,-6079361,-3329085,-412909,1815710,4440937,7215325,9340611,10830760,11552883,6586794,15028349,11462483,10735173,9385587,10717771,11464815,15214070,12033250,10195617,10007212,9274832,7734866,3007234,-483731,-2271641,-4001278,-6758545,-5168745,-3600585,-2614237,-2044051,-2342057,-1633015,-35138,986212,3479663,5592725,7994275,10049256,10347438,11698401,12229949,14525635,14898501},
{-30149969,-29962845,-28528236,-29958145,-34082127,-40468933,-43063129,-46293491,-48154072,-49838863,-52436050,-51609898,-53925007,-55533615,-56660416,-60203846,-61520493,-61912479,-60549255,-59075245,-57543606,-55638393,-53855324,-51319946,-48834633,-46376534,-42938046,-39842243,-37305416,-34761688,-32294937,-29936441,-27920155,-26259367,-24461393,-23291378,-23414518,-20906656,-19805738,-17917891,-16348335,-14356865,-13892818,-12721947,-11489392,-10648623,-9524087,-8657666,-6973966,-5729877,-5526207,-5564708,-5067663,-4749197,-3640978,-3146230,-2723143,-2018905,-2149593,-1413143,-1697697,-1541198,-1055709,-1196624,-1520499,-2127071,-2259401,-1175920,-1373226,-641281,26309,1524163,2673454,5345489,3601864,2566801,2398010,2176442,2856263,4374476,5793306,7321330,7551876,7820405,9798474,10888403,12243350,12893002,13018318,13085904,13548373,13677146,12970466,11364837,10669674,9675545,8304142,7123829,5879511,4510924,2535797,671564,-488658,-1982035,-3206705,-3646362,-4279717,-4303253,-4529120,-5175043,-5409184,-6225579,-7294217,-7965576,-8709938,-9642134,-10692806,-11609547,-12447301,-13314851,-14829143,-15308438,-16556986,-18044708,-19720570,-20558334,-20939995,-20772882,-20947584,-20727158,-19880884,-17583769,-16439022,-15411057,-13895384,-12000357,-9596657,-7117727,-4081118,-1460973,851204,3395072,6376465,8238315,10690929,11852167,6339226,13831440,12449800,10134311,10821834,5620032,8540147,17646000,12191449,10739288,9940613,9435780,8707839,3133333,-918249,-2708315,-5566750,-7169179,-5403987,-3914795,-2826835,-1830873,-2283150,-1498238,-18413,1013994,3415611,5529878,8034514,10154600,10445596,11774632,12325910,14537798,14898501},
{-30149969,-29967836,-28515306,-29918699,-34020500,-40330765,-42922607,-46121201,-47988911,-49676373,-52182899,-51151958,-53474339,-55388271,-56621750,-60087391,-61087421,-61484512,-60262150,-58728024,-57053783,-55367500,-53362400,-50914898,-48318424,-45804348,-42474277,-39568291,-36966290,-34450634,-32046986,-29617657,-27548820,-25958839,-24068953,-22917334,-22000422,-20647049,-19383526,-17724684,-16049677,-15437940,-13704491,-13103684,-12041160,-11228837,-10182265,-8947938,-7836496,-7265805,-6785152,-6574315,-6110834,-5457586,-4248896,-3697642,-2986373,-2917089,-2686197,-1876722,-1355323,-1394347,-1378464,-2205170,-2203464,-2691257,-3320359,-3177792,-2688971,-2084402,-1145424,286557,3197625,2895839,1979324,1504345,2986616,1335300,2644546,3696671,5437296,5448860,6175831,7263638,8802548,10116303,11805717,12174794,12301667,12428225,12914354,12456095,11702791,10528589,9965313,8670159,7269594,6236268,5081956,3052034,1398909,-225764,-1261386,-2515545,-3771855,-4170980,-4661907,-5371877,-5882379,-6789253,-6959329,-7899897,-8809079,-9346076,-10042621,-11030099,-11948160,-12662255,-13498577,-14549006,-15879519,-16203619,-17932327,-19589323,-20904383,-21595968,-21569052,-21938522,-22073574,-21340843,-20850992,-18499449,-17514927,-16614708,-14943626,-13104312,-10778557,-8129999,-5092005,-2512104,-1354,2622968,5965499,7521174,10583596,10971573,7505983,11039090,13557649,11394368,14389923,8213893,10544560,15316710,13317103,10773220,9419908,9749508,9329359,3452688,-1268093,-3037184,-6746206,-7550981,-5607271,-4165663,-2989007,-1932504,-2076916,-1369562,149455,1132631,3228336,5626313,8202248,10260692,10621628,11896525,12398652,14554146,14898501},
{-30149969,-29973061,-28502598,-29882540,-33921112,-40179943,-42791893,-45933075,-47826984,-49489002,-51862648,-50685360,-53008240,-55128803,-56248360,-59834084,-60429478,-61025745,-59979515,-58440708,-56739300,-54855244,-52720524,-50650478,-47879280,-45272591,-42242165,-39543316,-36625797,-34140472,-31878534,-29404640,-27271431,-25593369,-23664900,-22742966,-21498783,-20397995,-18931223,-17546282,-15957643,-15727672,-13370081,-13561639,-12409808,-11695985,-10654942,-9729827,-8631921,-8136840,-8123030,-7422379,-6906617,-5995820,-5181902,-4474546,-3724182,-3450810,-3166466,-2787101,-1982754,-2522993,-2880462,-3135471,-2998114,-4031859,-3744876,-4127744,-3855611,-2983926,-1826221,-749343,3239077,1399123,864342,1520553,961479,464156,1180922,2294046,3890787,4792664,5270868,6019714,7613960,9473432,11044044,11335140,11732026,11745687,11748767,11541918,10665086,9753858,8941015,7688290,6514473,5396241,3902290,1954795,458948,-894664,-2142524,-3295435,-4384668,-5029929,-5661073,-6544693,-7249123,-7842214,-8434765,-9438331,-10322349,-10700700,-11280427,-12303652,-13136253,-13828918,-14355966,-15562187,-16557499,-17759180,-19614223,-20952414,-22036388,-22361450,-22375973,-22525919,-22361315,-21875633,-21921436,-19700094,-18765621,-17654175,-16058809,-14085990,-11685143,-9198883,-6325051,-3612469,-845056,1928007,5105815,6642745,10238253,9572992,8385755,8066323,13332380,12760571,13544833,12202760,16255924,15974091,13921479,10355442,9261623,9716860,9406998,4003674,-1711304,-3210078,-7425765,-7745902,-5791627,-4408142,-3228017,-2263493,-2031120,-1318298,304193,1291016,3029115,5709910,8284905,10313972,10846650,11967591,12442374,14574718,14898501},
{-30149969,-29978701,-28491060,-29855145,-33809578,-40007206,-42665356,-45729698,-47674046,-49276299,-51469418,-50234989,-52561977,-54704449,-55757500,-59136856,-59912014,-60461342,-59822838,-58199032,-56247002,-54283611,-52325012,-49895176,-47330196,-44825127,-41678532,-39197220,-36535744,-33926739,-31601183,-29251316,-27033724,-25094976,-23416113,-22762976,-21220512,-20052410,-18757582,-17397594,-16144262,-15706132,-13773094,-13712373,-12628214,-11721501,-11190134,-10351382,-9707376,-9361950,-8744094,-8005013,-7364011,-6381052,-6186318,-5505063,-4354027,-3881755,-3423697,-3151931,-3484353,-3827716,-3474168,-3458700,-3804434,-3787487,-4119779,-5290368,-5140986,-4261466,-3260509,-2099947,121624,-666328,-986449,2834452,-561411,245755,473332,1788406,2484689,3570439,4019581,5293194,6997692,8546229,10176422,10398142,10736244,11303472,11192358,10709086,9608677,8836257,7385187,6359332,5169308,3995634,2457291,1146420,-393855,-1702850,-2957809,-4129427,-4886838,-6331735,-7148746,-7814859,-8412502,-9061933,-9903736,-10755851,-11033662,-12124429,-12836071,-13553263,-14300515,-15032550,-15232845,-16418842,-17206394,-19271008,-20972973,-22404779,-22942709,-23159916,-23645214,-23881214,-23423664,-23051622,-22416512,-20844366,-19995398,-18638268,-17123201,-14935303,-12711984,-10144787,-7458802,-4780262,-1819567,1043866,3747685,5866234,8589355,8327750,8773990,7503548,10270249,12437767,13076056,13154656,18778269,16772608,14765284,11158546,9546636,8850037,9319757,4486291,-1562490,-3531364,-7807996,-7912119,-5893526,-4661584,-3498768,-2761662,-2187979,-1404559,308407,1368716,2738803,5731249,8204310,10329592,11083827,11992883,12461092,14598426,14898501},
{-30149969,-29984835,-28481487,-29829607,-33705402,-39830429,-42549416,-45514545,-47521591,-49042385,-51011887,-49834637,-52101925,-54078648,-55112103,-57947945,-59135323,-59674942,-59328949,-57850620,-55735851,-53889397,-51917515,-49235382,-46733925,-44142723,-41890118,-39028183,-36458630,-33871700,-31312998,-28960674,-26839558,-24719044,-23150812,-22851244,-20880924,-19916506,-18697887,-17204771,-17136402,-15233720,-14834833,-13765821,-13295526,-12348645,-11441326,-11159998,-10467908,-10235163,-9444582,-8407212,-7580199,-7126932,-6739592,-5958406,-4978973,-4432237,-4800056,-4614696,-4508371,-4486931,-4162044,-4070251,-2313701,-5045631,-5523242,-6449179,-5967443,-5373687,-3682709,-3459238,-2680697,-2800000,967640,-90264,-1930935,-1255432,-42850,887905,1648739,2327609,3190380,4395834,5967618,7886275,9083117,9191971,9788773,10632442,10178154,9761111,8696012,7775820,5858171,5326906,3736752,2659803,1176296,108360,-1273944,-2550074,-3941484,-4855817,-5985341,-7399088,-8267323,-9052283,-9463819,-10302299,-11241716,-12279700,-12916357,-13793524,-14097078,-14829040,-15331932,-16051785,-16392265,-17392469,-18355091,-20958330,-22366133,-23490662,-23798672,-24310608,-24756512,-25283621,-24517057,-23941711,-23926647,-21813105,-21132339,-19627958,-18046259,-15790207,-13504603,-11274068,-8524195,-5978892,-2754331,86154,2552345,4929901,6829298,7526497,8744952,7913919,6086234,10425667,12392976,15175624,17889004,16670898,13754993,11237387,9322912,7748391,8802812,5822872,-1378731,-3494624,-7967595,-7982964,-6065062,-4863314,-3818285,-3297862,-2658187,-1703341,177783,1315102,2684305,5729424,8215574,10355804,11253421,12047032,12464309,14623241,14898501},
{-30149969,-29991367,-28473528,-29796932,-33632027,-39646332,-42437534,-45287361,-47370304,-48784599,-50520645,-49500263,-51629707,-53235104,-54416897,-56839222,-58522797,-59132591,-58757320,-57408882,-55312115,-53500179,-51574631,-48634605,-46265991,-43698708,-41481232,-38828537,-36377384,-33715038,-31075817,-28840925,-26699594,-24521730,-22867748,-22574095,-20419531,-19646395,-18633551,-17457420,-16894245,-16240067,-15200913,-14242063,-13434700,-12785480,-12012490,-11633353,-11233978,-10738560,-9855258,-8899240,-8337052,-7723825,-7133194,-6653664,-5863363,-5660154,-6018621,-5849556,-5442976,-4957807,-4754401,-2680668,-4600610,-5361104,-6500489,-7345452,-6372223,-6192594,-5837021,-4631325,-3421250,-2004679,560212,-2028032,-2779052,-2444898,-1488969,-282563,418794,1249356,2255239,3750486,5527543,6680986,7732056,8118981,8815109,9322667,9069466,8306067,7481644,6543523,4983287,3877330,2714530,1559281,50875,-1120450,-2207865,-3740554,-5001400,-5937398,-7159790,-8494865,-9556019,-10238732,-11003643,-12050846,-12756009,-13740181,-14557468,-15437166,-15499711,-15953391,-16383173,-16854349,-17705547,-18606775,-19766279,-23016247,-23777372,-24565466,-24928898,-25444876,-25554762,-26147743,-26147474,-25629942,-25071510,-23004007,-21978067,-20476849,-18828129,-16726475,-14552673,-12389182,-9617733,-7080448,-3954454,-1006704,1586172,3682706,5390307,6668623,8210253,8331124,6021303,7750041,12140616,17637661,16718563,16753559,12807566,11471591,8693642,7066861,8265977,6820282,-1446824,-2365899,-8053960,-7982266,-6274628,-5123937,-4203267,-3679673,-3132916,-2046896,-7060,1333490,2891259,5750934,8317041,10426673,11353761,12127857,12461779,14646717,14898501},
{-30149969,-29998037,-28465578,-29754980,-33576965,-39456245,-42334438,-45046242,-47212479,-48512814,-50007000,-49228638,-51124660,-52195538,-53433643,-54917027,-57745525,-58332497,-58111153,-56912590,-54794956,-53076866,-51068813,-48105282,-45617157,-43692627,-40995808,-38551945,-36120853,-33578423,-30942448,-28527487,-26483133,-24450130,-22542078,-21847086,-20127220,-19193989,-18337269,-17839632,-16502934,-16308058,-15446663,-14654584,-13472215,-13221885,-12167447,-11950998,-11569786,-10878551,-10228143,-9336861,-9255344,-8422917,-7816654,-7524252,-7154151,-6996254,-7088950,-6863319,-6124312,-5305034,-5406932,-4563187,-5426642,-6281263,-7570017,-7415274,-7030003,-7029541,-5183838,-5893728,-4260777,-2887382,-1518642,-2750540,-3306914,-3209508,-2269634,-1337873,-388826,538814,1858724,3252249,4970807,6047825,6864350,7189373,7758447,8088495,7827339,7045639,6480949,5317163,4099980,2826845,1539707,97985,-1050931,-2411303,-3506219,-4943837,-6086392,-7019091,-8363790,-10083773,-11190072,-12151536,-12935170,-13873576,-14728005,-15574710,-16393003,-17036942,-16786570,-17289833,-17786623,-18048187,-18935612,-19887386,-21348928,-23871973,-24847921,-25630133,-26078482,-26749107,-26884285,-27214262,-26826777,-26617666,-26481462,-24140505,-22949579,-21393337,-19666264,-17633146,-15704329,-13686248,-10838690,-7966007,-5156177,-2374606,552743,2364848,4172594,5684598,7511132,8161374,6955181,6472397,11646638,17872387,16377485,16914759,12652819,11907532,8804294,6760148,8041837,7474950,-1556755,-1719730,-8057561,-7878245,-6548366,-5482993,-4645482,-4003833,-3498336,-2348030,-150791,1392131,2828740,5688675,8464867,10502291,11445019,12207941,12461100,14666701,14898501},
{-30149969,-30004494,-28456316,-29706341,-33494236,-39261204,-42236004,-44792603,-47042870,-48230064,-49502033,-48999836,-50602829,-51034054,-52276218,-53459682,-56799816,-57510288,-57500526,-56293846,-54350769,-52559853,-50478500,-47421173,-45094433,-42795822,-40352314,-38093304,-35810360,-33462688,-30918913,-28233864,-26220833,-24385769,-22619131,-21382479,-19880156,-18820265,-17844109,-17555857,-17138428,-16372952,-15762284,-14961562,-14409254,-13702811,-12954405,-12282002,-11541172,-10867803,-10203463,-10072020,-9710133,-9085035,-8467064,-8080953,-7882774,-7994462,-8033505,-7511092,-6797248,-5866654,-3697845,-5025872,-6596474,-7674608,-8321202,-8006059,-7754537,-7799375,-7519173,-5992762,-5427742,-3382756,-4116995,-3226489,-3607554,-4065463,-3425878,-2209564,-1149773,261330,1866645,3010621,4389905,5001803,5797874,5911019,6571136,6672084,6324221,5871384,5064939,4027550,2945083,1225749,110957,-1341867,-2451366,-3729366,-4896590,-6135848,-7324266,-8312195,-9576666,-11758220,-12645924,-13641806,-14741580,-15539166,-16470371,-17362650,-17882433,-18343138,-18476414,-18533497,-19095335,-19457405,-20399057,-21534279,-22717085,-24574419,-25866526,-26841652,-27309265,-27692188,-28685474,-28936363,-28693920,-28065580,-27836117,-25302727,-24049370,-22116072,-20706625,-18843369,-16896294,-14839722,-12238153,-9281762,-6370652,-3108730,-826072,1457899,2915863,4515630,6716427,7431361,7177327,6223492,11366125,18553400,19657040,16478317,12784434,11984266,8531067,6668749,7544405,7413921,-1697352,-2260931,-7975242,-7890799,-6827534,-5869062,-5103341,-4510818,-3860022,-2574354,-279773,1435244,2842038,5711772,8572452,10544236,11581092,12325562,12468379,14682016,14898501},
{-30149969,-30010414,-28446360,-29655144,-33219521,-39063679,-42136337,-44526325,-46855186,-47940170,-49015373,-48788681,-50009510,-49764896,-51077198,-53028683,-55785088,-56663582,-56848091,-55641613,-53811516,-51997261,-49778648,-47097775,-44667496,-42147110,-40451061,-37789467,-35762386,-33308468,-30794130,-28235729,-26102871,-24512568,-22472471,-20891228,-19664120,-18645084,-18332680,-17030640,-17794710,-16794741,-16049194,-15337121,-14975619,-14245096,-13423657,-12540865,-11775257,-10978785,-10847825,-10432078,-10142817,-9693983,-9144867,-8442756,-8853796,-8723769,-8690446,-8075334,-7223885,-6326073,-5204950,-6098934,-7578647,-8461549,-8839708,-8630799,-8496511,-8124767,-7972146,-6856263,-6289932,-3931171,-4478692,-3937942,-4964910,-3811785,-3790854,-2970733,-1561836,-163218,1288120,2740299,3582711,3881533,4447451,4754206,5459451,5160080,4962020,4612215,3754794,2510962,1689432,-272503,-1239611,-2784677,-4014888,-5249017,-6371157,-7316814,-8375793,-9775187,-10856875,-13058542,-14330930,-15432274,-16319387,-17155247,-18063856,-18683125,-19492378,-19919973,-19830893,-19667215,-20302338,-21010456,-21977749,-22906435,-23965601,-25417200,-26853369,-27672733,-28554558,-29027597,-29931128,-30294409,-30067122,-29561703,-28397366,-26162926,-24984737,-23024883,-21359243,-19896313,-18174503,-16085012,-13555433,-10581821,-7705041,-4466718,-1947151,-173422,1505355,3639748,5487986,6413527,6400657,6019937,10709747,18809233,18707209,14922731,12946401,11417921,8343683,6754220,6825991,6443061,-1358202,-3594838,-7935240,-7942646,-7171742,-6363301,-5709451,-5098549,-4354488,-2651557,-466551,1358888,2966913,5688768,8678102,10575003,11767023,12507231,12489767,14692879,14898501},
{-30149969,-30015610,-28437864,-29603045,-32955669,-38862724,-42035648,-44244545,-46644825,-47646721,-48560646,-48572445,-49338818,-48463127,-49817875,-52915680,-54736668,-55908913,-56075470,-54907211,-53294720,-51469959,-49283775,-46355282,-44186562,-42077682,-40312328,-37946072,-35726109,-33082432,-30447838,-28123863,-25967524,-24718098,-22052174,-20495991,-19191654,-18387354,-19168463,-17251074,-17820015,-17225502,-16307070,-15914524,-15317501,-14599918,-13896525,-13102068,-12149120,-11570625,-11225812,-10791595,-10568126,-9961473,-9299827,-8989712,-9181873,-9242073,-9125088,-8293741,-7490335,-7112273,-6250814,-7111267,-8694469,-9307774,-9281642,-8948294,-9037902,-8919370,-8227074,-8253060,-6748793,-5763445,-5214030,-4645553,-5485293,-4816109,-4551172,-3205285,-1928924,-780142,496046,2069534,2711413,3089661,3189010,3655356,4510743,3765975,3585892,3112356,2116297,1106425,156612,-1679551,-2701536,-4496892,-5741423,-6881476,-7772858,-8673024,-9802584,-11225484,-12124711,-13909624,-15672253,-17290348,-18361603,-19173973,-19677788,-20158951,-20943995,-21127684,-20947166,-21088018,-21817789,-22570877,-23613283,-24610804,-25298264,-26551386,-27849796,-28400400,-29306589,-30206373,-30890091,-31277687,-31306990,-30998268,-29631136,-27132721,-25837141,-24002390,-22365929,-21149940,-19461405,-17344309,-14693832,-12007137,-8961572,-6082267,-3859966,-1624201,186211,2285893,4576769,5159575,5299488,7055295,11466224,18446257,17334831,12919772,12001947,10687672,8351693,6983083,6117417,5108242,-1983710,-4960908,-7827716,-8069848,-7682246,-6929186,-6234259,-5441239,-4568985,-2675351,-663484,1285136,3071168,5538065,8707011,10626527,11946637,12706837,12531267,14700925,14898501},
{-30149969,-30020088,-28432224,-29548603,-32885380,-38657707,-41923378,-43948727,-46404102,-47342754,-48137711,-48331856,-48578686,-47198467,-48574394,-52164196,-53750275,-55346863,-55285702,-54109695,-52735943,-50951557,-48598034,-46214527,-43483982,-41945427,-40038052,-37730415,-35585747,-32732430,-30227268,-27993633,-25880814,-24253212,-21518377,-20095430,-18836439,-18197811,-17997253,-18706112,-17851196,-17114325,-16695013,-16388569,-15546683,-14770574,-14125747,-13479444,-12801458,-12014568,-11467350,-11026826,-10610503,-10060528,-9366535,-9338609,-9665493,-9535372,-9372915,-8485087,-8161590,-7359396,-7778650,-8772964,-9774755,-10066527,-9945762,-9644264,-9546372,-9463771,-9082853,-8105026,-6668566,-6815219,-5472951,-5681957,-5799781,-5142870,-4780359,-3479248,-2780907,-562102,3162961,827984,1626052,2139401,2520932,2643803,2889050,2256313,2255261,1423007,426516,-143841,-1231863,-2846689,-4672710,-6164854,-7520563,-8562595,-9355365,-10490184,-11688488,-12658534,-13642808,-14868772,-17186960,-18932432,-19987593,-20836912,-21529995,-21993000,-22461193,-22303228,-22488169,-22919142,-23006357,-24358225,-25079346,-25894865,-26699421,-27640326,-28991417,-29382191,-30431639,-31352118,-32032272,-32465267,-32497414,-31756092,-30021063,-28404696,-26605246,-25144009,-23690676,-22310223,-20682356,-18553621,-15949119,-13114297,-10256318,-7511343,-5317142,-3091495,-1113287,1281865,2908604,3962989,4330448,8573843,10807611,18750305,15811566,12755066,11740174,10585748,8611699,7212808,5509895,4229230,-2450640,-5853472,-7655980,-8265840,-8000067,-7211905,-6564860,-5666961,-4703563,-2800490,-894695,1309356,3214812,5515621,8694081,10678191,12085546,12877293,12595610,14708817,14898501},
{-30149969,-30024046,-28428452,-29493252,-32744400,-38449978,-41801777,-43633125,-46127460,-47031422,-47745640,-48037815,-47766167,-45982182,-47503128,-50880863,-52723839,-54637596,-54521519,-53305645,-52127579,-50446018,-48335041,-46134655,-43154922,-42016720,-39788696,-37492977,-35125050,-32416107,-30083990,-27865673,-25842026,-23454405,-21230547,-19615749,-17620808,-17512526,-17818958,-18509279,-17372149,-16877998,-16718575,-16593670,-15569545,-14852532,-14384359,-13726036,-13295058,-12317103,-11861118,-11391238,-10880112,-10083973,-9812080,-9589148,-9897989,-9858784,-9649141,-9106486,-8680717,-8048412,-8983941,-9827269,-10492305,-10633906,-10430984,-10293863,-9849800,-9722985,-8379501,-8929722,-8105320,-7390979,-6244409,-6667065,-6806840,-5827327,-4657910,-3793280,-2677352,3476835,1746186,50602,863846,1082156,1064809,1357184,1635553,1238524,793318,-344126,-881170,-1582750,-2875438,-4197524,-6170432,-7850460,-9285794,-10349404,-11149898,-12222702,-13302336,-14320690,-15397756,-16412230,-19006966,-20479988,-21883057,-22454988,-22848009,-23219898,-23843367,-23828053,-23886282,-24692459,-24777689,-25842478,-26667866,-27121792,-27958216,-28743027,-29575464,-30282505,-31373278,-32327938,-33138031,-33908165,-33370930,-32852528,-31204298,-29088310,-27519850,-26031065,-24864717,-23521297,-21801348,-19641829,-17135506,-14378500,-11399113,-8845992,-6678666,-4514482,-2153685,344119,1619069,2457269,2976600,7374928,11275596,18027145,13551212,12203333,11188363,10646260,8451540,6899749,4274824,3183590,-2526398,-6110306,-7502044,-8266445,-8344585,-7642660,-7012956,-6051562,-4878665,-3041327,-1093951,1434490,3190475,5480551,8645298,10723094,12219890,13019025,12678047,14719559,14898501},
{-30149969,-30027792,-28424219,-29440872,-32545986,-38233158,-41666153,-43313705,-45812183,-46703968,-47372929,-47683128,-46911572,-44930805,-46569790,-49712643,-51942257,-53816914,-53684189,-52604710,-51449684,-49858898,-47914124,-45851330,-43606098,-41616726,-39216770,-37495544,-34932659,-32491600,-29945826,-27467224,-25634892,-22611582,-20612585,-19069777,-17888994,-17849693,-19398596,-18157055,-17154959,-17049728,-17052647,-16547190,-15601024,-14971508,-14600230,-14179420,-13336897,-12738925,-12306003,-11639234,-11056612,-10561833,-9999175,-9887796,-10319743,-10229932,-9899937,-9258892,-9140507,-9716430,-10417709,-10669562,-11212319,-11261508,-11063494,-10820274,-9305139,-10423506,-9887431,-9576949,-8563935,-7672534,-7841578,-7875953,-7005838,-5943007,-4766792,-3604691,1561063,-1433543,-1253653,-193732,306641,52959,-217301,173314,175966,-26357,-785037,-1862498,-2427689,-3402575,-4420371,-5944342,-7987638,-9667858,-10842131,-12071881,-13150472,-14312435,-15128656,-16218618,-17069197,-18247541,-21000650,-22012384,-23334312,-23872248,-24214336,-24730919,-25457802,-25682503,-25686522,-26039522,-26560347,-27406637,-28175812,-28564440,-29243464,-29762186,-30497427,-31363493,-32299141,-33169353,-34129005,-34542336,-34429447,-33737373,-31965830,-29778629,-28467577,-26950071,-25982075,-24481213,-22872337,-20567875,-18275114,-15440243,-12578304,-10291049,-7853819,-5763267,-3132797,-859591,436014,1149936,2696540,5593397,12895044,15380510,12207849,11270100,10079775,10475745,7449259,5688177,3516804,723352,-3344728,-6148267,-7511327,-8217952,-8710378,-8117207,-7472434,-6529685,-5185967,-3322366,-1091203,1532508,3147413,5474015,8576571,10813240,12372358,13148573,12765566,14735726,14898501},
{-30149969,-30031639,-28418283,-29390465,-32279510,-38016689,-41517216,-42986019,-45463161,-46358479,-47005043,-47254986,-46054420,-44070240,-45724174,-48591198,-50902260,-52803246,-52882515,-51929573,-50683880,-49047001,-47300289,-45490002,-43314621,-41052330,-39114700,-37170479,-34672607,-31979334,-29656450,-27096708,-25722158,-22405464,-20182421,-18467613,-17655348,-18806057,-19576262,-18323250,-17465691,-17162996,-17252159,-16803318,-15956604,-15257948,-14885154,-14063628,-13462860,-13044805,-12342555,-11910913,-11257259,-10798034,-10217122,-10194094,-10490649,-10484323,-10123108,-9904365,-9911811,-10512764,-11095280,-11615932,-11751030,-11587583,-11476339,-11329803,-10767376,-10417408,-9584534,-9933710,-8918540,-8991592,-8892338,-9107045,-7592805,-6673625,-5312496,-3896209,-1760392,-2462352,-1504348,-799358,-1090571,-1127914,-1402644,-1143773,-1448053,-1561583,-2276386,-3376570,-3910496,-4969935,-6193554,-7910369,-9812344,-11064587,-12448666,-13708386,-14858893,-16160910,-17297054,-18044199,-18561148,-20012568,-22361994,-23387278,-24709782,-25307154,-25874123,-26615479,-27248039,-27369133,-27434072,-28051464,-28183128,-28921618,-29564219,-29824331,-30391071,-30870556,-31445801,-32416687,-33421532,-34224781,-35016926,-35636555,-35111553,-34355896,-32732109,-30473820,-29441397,-28061958,-26784636,-25500912,-23893927,-21538326,-19131411,-16706930,-13839786,-11399474,-8995362,-6627647,-4061624,-1955137,-794771,119934,3548475,7409119,11558125,11954567,11341789,10053041,9489121,10000287,6339310,4151152,2815573,-1907038,-3958059,-5851959,-7405352,-8282114,-9049038,-8539072,-7931327,-6970721,-5513098,-3420050,-1126809,1625502,3219197,5529341,8557208,10941021,12510177,13263334,12842582,14758865,14898501},
{-30149969,-30035774,-28411459,-29337212,-32098515,-37789257,-41349861,-42662552,-45085220,-45991379,-46626698,-46763924,-45242027,-43402340,-44849998,-47483467,-49750912,-52019852,-52119236,-51289101,-49754658,-48253113,-46884529,-44980125,-42819107,-40822266,-39226349,-36817974,-34373844,-31962772,-29445557,-26939861,-25482079,-21860321,-19985832,-18342428,-17540905,-19002958,-19084820,-18432858,-17634951,-17304436,-16860077,-16336887,-16135389,-15460020,-14503811,-14206776,-13465460,-13286456,-12392909,-12072247,-11323788,-10783951,-10748548,-10671310,-10752798,-10639999,-10464305,-10663755,-10607183,-11429728,-11813644,-12210326,-12173055,-11974504,-11893646,-10916574,-10849841,-10154595,-10469699,-10074298,-9649577,-9790678,-9679010,-9155641,-8451518,-7499957,-6084221,-4634959,-3728744,-3031185,-2482956,-2167738,-2320467,-2396892,-2749990,-2534726,-3089974,-3168309,-3994220,-4906054,-5532708,-6799265,-7874876,-9736420,-11397520,-12758871,-14089784,-15329496,-16672138,-18191158,-19095417,-19943411,-20527208,-22098970,-23523703,-25266605,-26450951,-26992067,-27980795,-28422405,-28789999,-28832596,-29113848,-29690931,-29760223,-30514969,-30672991,-31116199,-31529024,-32142017,-32887177,-33386803,-34619171,-34962807,-35895256,-36566887,-35536785,-34693935,-33716827,-31266029,-30039265,-28913958,-27435942,-26249092,-24612108,-22339138,-19883816,-17549341,-14996083,-12645991,-10144374,-7665039,-5048720,-3472739,-2467687,-824317,3227555,8896277,10393288,10467260,10017470,8731682,9234103,9076210,5664018,3682506,1684404,-3705526,-4064220,-5173810,-7113452,-8622439,-9428318,-8959117,-8314689,-7419237,-5799702,-3416562,-1167747,1726274,3382378,5551465,8549398,11064387,12625051,13334569,12900329,14789191,14898501},
{-30149969,-30040197,-28405283,-29280592,-32111584,-37566757,-41165859,-42346394,-44683365,-45596226,-46225739,-46233677,-44521271,-42905090,-44182461,-46448738,-47734901,-51291115,-51504570,-50413300,-48760674,-47485958,-46072403,-44361301,-42516010,-40756336,-38981083,-36357555,-34074970,-31717278,-28935820,-26572786,-24820358,-21824841,-19790840,-18193371,-17349936,-20274368,-18873602,-18421104,-17808369,-17216587,-16859646,-16054249,-16066685,-15647027,-14200746,-14109865,-13741505,-13385553,-12585268,-12258399,-11699149,-11200700,-11135514,-11023354,-11141280,-11151069,-10874290,-11147599,-11206282,-12168417,-12414024,-12750969,-12715393,-12192296,-12122025,-11848283,-10723773,-11398732,-11100749,-10261566,-10043530,-10723369,-10336493,-9768326,-8934807,-8204473,-6775714,-5422511,-4670263,-4246709,-3854698,-3399563,-3607460,-3748545,-4046437,-3912331,-4284494,-4652701,-5619090,-6438525,-7368752,-8527311,-9771970,-11594725,-12981591,-14372979,-15619794,-17042797,-18708395,-19741493,-21158419,-21862185,-23014244,-24190615,-25592607,-27249392,-28277477,-28975494,-29472359,-30339947,-30966568,-30537703,-31024658,-31395515,-31393396,-31725813,-32093624,-32374889,-32835678,-33284077,-34278152,-34755383,-35500137,-36247578,-36697903,-37066578,-36200577,-35227509,-34205055,-31822847,-30572771,-29634729,-28117771,-26953955,-25314224,-23174492,-20652485,-18291054,-15812760,-13728813,-11203270,-8792500,-5993970,-5412363,-4108799,892614,4595886,6392214,9771277,8872261,8318248,7819939,8020943,8145534,5100502,3887550,500283,-5089441,-4012738,-4217954,-7082572,-8906952,-9704644,-9242439,-8521807,-7737950,-5991706,-3435013,-1148816,1788616,3603387,5592940,8559196,11175900,12733679,13346085,12942446,14825675,14898501},
{-30149969,-30044697,-28400391,-29226398,-31853380,-37336449,-40965122,-42044300,-44265244,-45183540,-45797421,-45671810,-43902367,-42528049,-43609016,-45468216,-45776653,-50466728,-50508766,-49440689,-47891853,-46674541,-45400562,-43827129,-42303883,-40594868,-38770531,-36406414,-33732841,-31391905,-28756239,-26242434,-24063835,-21630144,-19676231,-18176371,-17097397,-20371887,-18733458,-18314833,-17733923,-17311842,-16715757,-16098442,-15286248,-15030154,-14569591,-14175959,-13714421,-13371511,-12771795,-12242509,-11879224,-11690141,-11519506,-11028782,-11486053,-11429720,-11405594,-11716542,-11863594,-12850059,-12897676,-13102266,-12932545,-12620375,-12474915,-9656049,-10787175,-11380072,-11347365,-10547523,-10785690,-10957462,-10453498,-10049386,-9235176,-8661572,-7503438,-6533842,-5883231,-5369520,-5147605,-4738063,-4959304,-5110447,-5083196,-5232326,-5646908,-6065134,-6762970,-7557759,-9060509,-9950333,-11482530,-13162297,-14614332,-16298429,-17652418,-18984184,-20604881,-21798609,-22859434,-23879261,-25007832,-26083153,-27461672,-29323204,-29927174,-30842926,-31280632,-32064838,-32321232,-32516766,-32453983,-32962818,-33028252,-33146477,-33427853,-33734161,-34316532,-34427143,-35634666,-35937946,-36730572,-37459202,-37334507,-37324959,-36573170,-35750671,-34725830,-32439545,-31117199,-30094543,-28906902,-27380051,-25461267,-23714319,-21239634,-19062040,-16553629,-14260107,-11921364,-9419762,-7774911,-7134493,-885418,1877684,3035946,5539890,7196699,7325368,7553925,6662175,7690665,7338965,4041677,1217045,-1920778,-5455728,-4115864,-3685740,-7085737,-9016805,-9834182,-9250679,-8363833,-7812590,-5997890,-3537922,-1195050,1807123,3696759,5661572,8582324,11322414,12864182,13337784,12981653,14866430,14898501},
{-30149969,-30048918,-28396431,-29179762,-31535067,-37088623,-40744808,-41763538,-43847511,-44744518,-45337536,-45075619,-43385742,-42226257,-42693172,-44554672,-45035435,-49317444,-49098186,-48497471,-47115677,-45869579,-44644405,-43199768,-41970024,-40491306,-38010979,-35910275,-33400574,-30915367,-28398905,-25970470,-23521334,-21379118,-19564110,-18087715,-17875177,-19497499,-18631157,-18325550,-17741705,-17148769,-16432383,-15958405,-15241020,-14753084,-14339515,-14292680,-13711361,-13142632,-12925800,-12406844,-12032173,-11870728,-11335139,-11397654,-11673070,-11806364,-11888868,-12096320,-12452492,-13131582,-13305996,-13204824,-12749675,-12438500,-12525087,-12159153,-11084476,-11434201,-11455023,-10944449,-11106464,-10898465,-10478705,-10095402,-9690960,-9067397,-8171332,-7378817,-6643613,-6486216,-6358369,-6044811,-6216434,-6097238,-5860368,-6687855,-6688561,-7317756,-8195786,-9130465,-10438426,-11378064,-13193214,-14715857,-16234547,-17888596,-19284979,-21169275,-22661661,-23522764,-24740091,-25845634,-27059898,-28163128,-29289553,-31312468,-31963230,-32831837,-33339321,-33474991,-33682915,-33802773,-34365738,-34339199,-34567627,-34627205,-34768047,-35063587,-35516872,-35771107,-36406506,-37242004,-37999027,-38631092,-38583115,-37862198,-37183620,-36013725,-34992157,-32882671,-31540714,-30287197,-29152740,-27778505,-25790131,-23998209,-21588606,-18948162,-17158855,-14839512,-12528391,-11215560,-9315858,-3941734,-841533,695544,2123051,5795209,5484856,6304982,6458954,5521641,6298963,6534953,1826311,-311965,-2430026,-5961369,-4785363,-3043371,-6733112,-8865053,-9744699,-8942696,-7846573,-7590706,-5845033,-3800909,-1491434,1735692,3819991,5753366,8621114,11502518,13030890,13361518,13030252,14909258,14898501},
{-30149969,-30052462,-28393024,-29139387,-31420111,-36833977,-40505352,-41506027,-43437973,-44287052,-44839085,-44462368,-42941280,-41890179,-42004986,-43829945,-44527782,-47721188,-47995884,-47654057,-46147831,-44998325,-43816162,-42496513,-41589779,-40032478,-37920307,-35536739,-32886433,-30239294,-27919863,-26287477,-23152275,-21147997,-19338737,-17956259,-18438982,-18729601,-18347157,-17995125,-17364523,-16796980,-15874398,-15452401,-14851571,-14799644,-14060366,-14245714,-13754478,-13474783,-12876957,-12708761,-11923969,-12004411,-11177675,-10999453,-11799094,-11909890,-12208801,-12426310,-12959331,-13290477,-13438557,-13193230,-12724504,-12580054,-12081540,-11592457,-11372957,-11654578,-11629931,-11391962,-11176398,-10860517,-10389200,-9958944,-9669795,-9018149,-8457756,-7735282,-7510002,-7745265,-7447943,-7173601,-7177786,-7007412,-7327545,-7416634,-7501905,-8491097,-9292964,-10425024,-11599608,-12861748,-14537544,-15964877,-17504200,-19496000,-21455086,-22934999,-24012651,-25442717,-26508436,-28022852,-29129135,-30433399,-31466549,-33016098,-33911160,-34651630,-34906624,-35022205,-35170269,-34968140,-35823616,-35983910,-36235802,-36213192,-36141720,-36157734,-36615673,-36914268,-37421890,-38073845,-38935463,-39012638,-38870049,-38772873,-37906040,-36624966,-36371979,-32905426,-31585997,-30318481,-29117901,-27762968,-25855980,-23880251,-21499310,-19630449,-17550661,-15240853,-13483297,-12250477,-6125962,-3957958,-1776440,67581,2654320,3497293,3950664,4691298,5266976,4615342,5474951,6392312,-164046,-1412554,-2173486,-5642261,-6055130,-2860972,-6065897,-8464061,-9349928,-8266111,-7056215,-7242444,-5823105,-3813730,-1841747,1649995,3897151,5843001,8682151,11642054,13174817,13413631,13092455,14952168,14898501},
{-30149969,-30055014,-28390062,-29102654,-31268551,-36575901,-40250843,-41273006,-43045460,-43824570,-44305859,-43853256,-42538036,-41490086,-41208260,-43164818,-43781189,-45749844,-47197334,-46708538,-45288467,-44317226,-42863804,-41742321,-40927006,-39320587,-37302113,-35271793,-32622314,-29907585,-27414772,-26247881,-22877457,-20836777,-19258549,-17739458,-18150160,-18263624,-17820602,-17639711,-17202522,-16479807,-15284357,-14984234,-14742442,-14349775,-13984654,-14055509,-13665026,-13396335,-12835884,-12596796,-11957040,-11758319,-11209174,-11038005,-11524297,-11876058,-11948276,-12764562,-13062288,-13386435,-13406462,-13104242,-12650196,-12641952,-12115585,-11259876,-11279564,-11836699,-11598722,-11240554,-11005140,-10875864,-10152878,-9766648,-9517405,-8948711,-8540635,-8109242,-8005052,-8421515,-8144861,-8296065,-7900746,-7935486,-8409478,-8359741,-8871677,-9615524,-10420363,-11675811,-12849157,-14387296,-16013657,-17261374,-18805174,-21100029,-23067017,-24690260,-25878559,-27387877,-28445911,-29838539,-31383560,-32421455,-33476284,-34579708,-35570896,-36094032,-36342514,-36366810,-36295341,-36315399,-36700371,-37327808,-37740669,-37646740,-37468971,-37762424,-37744987,-38431355,-38401009,-38869225,-39691895,-39806602,-39147774,-38725769,-38200344,-36986908,-36350243,-32952808,-31569366,-30393099,-29084801,-27761152,-25550478,-23736694,-21571640,-19932306,-17914829,-15735398,-14674696,-8639446,-7777720,-4977761,-2946639,54243,2739342,2229918,2626046,3217544,3244814,3917020,5428589,5594287,-2201403,-2237814,-2672583,-5625968,-6702570,-3560510,-5104362,-7737231,-8502348,-7177560,-6176864,-6758969,-5880236,-3714401,-2158036,1592273,3997233,5961460,8730744,11658926,13276369,13468948,13163912,14993741,14898501},
{-30149969,-30056440,-28387241,-29070820,-31135786,-36305649,-39977661,-41057892,-42670918,-43367474,-43749016,-43243309,-42138996,-41007183,-40392921,-42491829,-43382309,-44181129,-46512897,-45833862,-44694366,-43266209,-41910984,-40893150,-40155701,-38818295,-36778236,-34736912,-32212742,-29611275,-27168133,-25591438,-22622141,-20485039,-18998775,-18109295,-18433369,-17654026,-17535221,-17007828,-16523350,-15793558,-14881413,-14576371,-14808513,-14326158,-14035223,-13834583,-13526586,-13146851,-12791672,-12468402,-11777964,-11806498,-11313276,-10944116,-11581065,-11668676,-12284901,-12659898,-13206631,-13315562,-13126429,-12951159,-12428648,-12196325,-11728018,-11251119,-11165739,-11752390,-11560837,-11126580,-10773193,-10582909,-9851953,-9461927,-9374139,-9066872,-8562972,-8557338,-8595241,-9083231,-9028750,-9068626,-8805893,-8884983,-9181110,-9420196,-10009413,-10630877,-11615394,-12892291,-14239803,-15735633,-17330357,-18604500,-20110003,-22517361,-24806131,-26204714,-27482702,-28984484,-30457125,-31934166,-33216858,-34360020,-35168194,-36168522,-37238617,-37696823,-37847916,-37565914,-37802620,-38228649,-38557190,-38605492,-39227245,-39014942,-39081699,-39162754,-39202351,-39251568,-39533112,-39416248,-40358925,-40192879,-39798832,-39130848,-38467712,-36988579,-36614899,-32631947,-31206581,-30358057,-28946085,-26727844,-25069826,-23554743,-21819944,-19792742,-18083607,-16677162,-12592947,-10913589,-8757112,-5887934,-3343323,217613,470715,1792288,1588413,2156496,2143542,3062635,5105684,4068264,-3721523,-2925640,-3579342,-6005977,-7209988,-5401332,-4197038,-7055370,-7264786,-5745358,-5469569,-6190506,-5708344,-3462652,-2399678,1522636,4117403,6072202,8796124,11603445,13379577,13536285,13236932,15033261,14898501},
{-30149969,-30056822,-28384083,-29043396,-31071405,-36032837,-39690914,-40858395,-42320324,-42926758,-43191853,-42644104,-41716049,-40438381,-39658936,-41870621,-42966179,-42941147,-45850552,-45151939,-43652134,-42424152,-40840195,-40012600,-39245075,-38061062,-36315975,-34439812,-31824039,-28954239,-26684153,-24301430,-22157425,-20203899,-18830297,-18275017,-17932503,-17055311,-16526091,-16256651,-15799428,-15000026,-14688096,-14425858,-14240433,-14130860,-13862061,-13640459,-13515115,-13122803,-12751431,-12484569,-11911972,-11665079,-11421758,-10933452,-11233347,-11628861,-11959238,-12588989,-13092587,-13032714,-12860845,-12609493,-12300571,-10899190,-11156399,-11093497,-11034893,-11382526,-11342126,-10992654,-10590291,-10210159,-9561672,-9542462,-9419611,-9072204,-8795693,-8964316,-9171270,-9635975,-9790525,-9594122,-9446261,-9801499,-10295482,-10646531,-11306786,-11928041,-12958901,-14306419,-15511579,-17130527,-18723494,-19934473,-21609676,-23803791,-25954206,-27500696,-29038147,-30389713,-32120960,-33503704,-34811176,-36064716,-36989460,-37935097,-38586266,-39150608,-39362534,-39442867,-39327229,-39762394,-39852665,-40395397,-40667801,-40461739,-40327148,-40446358,-40358437,-40004585,-39859383,-40078415,-40538445,-40205997,-40008877,-39546574,-38382442,-37190483,-36787064,-32324169,-30925182,-29900444,-28548307,-26314665,-24387390,-23351978,-21779377,-20492716,-18175598,-17713291,-13933289,-11404038,-8657817,-6950932,-4043057,-1011217,161614,237988,47574,914484,1419187,2460214,3768820,2651036,-5111876,-4090833,-4702598,-6742479,-8052064,-7207259,-4418386,-6637429,-5521919,-4185758,-5113023,-5526294,-5210102,-3202925,-2397089,1342717,4206089,6160843,8908239,11565376,13468158,13630042,13306154,15070668,14898501},
{-30149969,-30056427,-28380739,-29016691,-31123997,-35754978,-39389076,-40669010,-41995747,-42501125,-42636101,-42060295,-41250000,-39796417,-39029465,-41263969,-42459072,-42503101,-45377876,-44442486,-42263935,-41417553,-39972908,-38995079,-38352917,-37238674,-35583832,-33909119,-31349234,-28344980,-26383892,-23876801,-21813381,-20013138,-18603186,-16759304,-17116045,-16483038,-15952948,-15507915,-15004824,-14461944,-14102767,-13769692,-13666061,-13666224,-13501650,-13489546,-13183747,-12924508,-12608274,-12359297,-12194057,-11857190,-11487353,-11105063,-11172255,-11635005,-11861891,-12334936,-12670488,-12808117,-12433563,-12084944,-11749685,-11008185,-10832676,-10854439,-10964741,-11495810,-10973612,-10502110,-10463823,-9903750,-9467179,-9411972,-9308457,-9201096,-9130616,-9148528,-9501214,-10137147,-10283215,-10406812,-10180930,-10554133,-11236421,-11503961,-12375452,-13275752,-14315177,-15582142,-16785427,-18355562,-19840118,-21287043,-22886038,-25111975,-27235699,-28907915,-30603008,-32130226,-33793037,-35051525,-36307552,-37488300,-38511753,-39231640,-39729385,-40369526,-40841297,-40944695,-40977047,-40851135,-41215309,-41449100,-41868477,-41667500,-41797462,-41694233,-41253284,-40739872,-40338886,-40616432,-40792847,-40594296,-40039341,-39616199,-38685272,-36889023,-36746368,-32122040,-30637680,-29575754,-27939415,-26416031,-24937254,-23460375,-21889816,-20848787,-19816420,-15816410,-13744909,-10954829,-8899379,-7114141,-5320155,-2356173,-733261,-818637,-1786941,-790665,1068859,1864831,2206369,149517,-6051688,-4595232,-5503480,-7441243,-8874606,-8506663,-7303685,-6721282,-4478341,-3280949,-4989830,-4768778,-4628056,-3065382,-2365824,1131080,4227000,6228256,9008232,11627340,13525414,13738188,13371182,15106383,14898501},
{-30149969,-30055616,-28378084,-28990637,-31104204,-35469051,-39065613,-40484802,-41678101,-42092365,-42104103,-41499859,-40755573,-39119450,-38466927,-40671974,-41772575,-42804790,-45080410,-43677059,-42254551,-40451050,-39265266,-38176723,-37525227,-36646671,-35050663,-33524860,-30912062,-27811131,-26323553,-23648481,-21316885,-19759026,-18218807,-16331945,-16075401,-15796560,-15377462,-14874979,-14209528,-13824479,-13427642,-13539791,-13299372,-13200048,-13356381,-13197517,-12840503,-12567904,-12395591,-12359818,-12357068,-11861622,-11495049,-10806803,-10837048,-11536968,-11698763,-11916032,-12143442,-12438107,-12023441,-11727062,-11189221,-10826631,-10441799,-10714548,-10948480,-11128675,-10567086,-10375727,-10294950,-9558645,-9223417,-9240964,-9227438,-9203284,-9187329,-9368876,-9882740,-10369989,-10926669,-10960228,-10974269,-11438789,-11982258,-12565859,-13613648,-14285851,-15537265,-16627733,-18160969,-19593754,-21001173,-22508537,-24304102,-26420561,-28293850,-30393877,-31997696,-33773556,-35304939,-36403858,-37555187,-38995659,-39821621,-40284664,-41028931,-41543633,-42044537,-42087185,-41815994,-41814949,-42394005,-42573776,-42842785,-43006184,-42769245,-42484486,-42022785,-41186386,-40699657,-41021267,-40961285,-40864361,-40320202,-39618614,-38571114,-36712524,-36627281,-31656801,-30427021,-29211031,-27672276,-26457916,-25044975,-23701488,-22071114,-21488558,-19658859,-15139178,-13215509,-11532794,-8461821,-7862193,-6096531,-3378249,-1786012,-2456899,-3007536,-1427427,416817,1186710,189560,-2090440,-6542443,-5519489,-6018490,-8205298,-9335799,-9913507,-9805557,-8400880,-5450349,-4074544,-4983628,-3855459,-4033213,-3066035,-2302095,935545,4310307,6304991,9084340,11806953,13581399,13843882,13436075,15141139,14898501},
{-30149969,-30054720,-28376421,-28966766,-30994513,-35180141,-38725300,-40292751,-41369015,-41712406,-41590492,-40952595,-40229660,-38487293,-37943974,-40096283,-41072258,-41702583,-44217682,-43159851,-41174053,-39890053,-38637363,-37501884,-36786049,-35824787,-34529690,-32991394,-30661295,-27847580,-26482071,-23189011,-20997946,-19553589,-18167072,-16172417,-15353558,-15031980,-14639588,-14065965,-13455003,-13018250,-12764255,-12865530,-12725307,-12849780,-12962454,-12806630,-12573779,-12539483,-12062652,-12189062,-12191975,-11619267,-11438293,-11109675,-11022597,-11561155,-11587287,-11649635,-11873870,-11962854,-11633821,-11516225,-10898403,-10666717,-10373279,-10269942,-10586844,-10482942,-10237413,-9909596,-9867078,-9176902,-8936337,-8969956,-9081960,-9144799,-9340860,-9496207,-9983359,-10973437,-11619657,-11548212,-11757013,-12240162,-12724535,-13806965,-14662606,-15715784,-16804781,-17889311,-19428297,-20699102,-22112007,-23699692,-25382717,-27648363,-29600601,-31639750,-33434975,-35206776,-36846169,-37901924,-39029236,-39965572,-41067474,-41506863,-42059490,-42839527,-43190643,-43307796,-43259483,-43463562,-43290913,-43602848,-44023819,-43821747,-43547348,-42823051,-42256565,-41600853,-40831497,-41102306,-41148952,-40966251,-40386749,-39438049,-38422935,-36568722,-36083527,-31455105,-30085768,-28939413,-27749132,-26562311,-25310617,-24051065,-22848930,-21209473,-16015682,-14242714,-11869755,-11093780,-9570488,-8282383,-6611862,-4313181,-3170919,-3981538,-4202066,-2369599,-894160,-366304,-1749012,-6625232,-7099845,-6340590,-6510426,-8607761,-10022264,-10999022,-10631607,-9462994,-7216323,-6135584,-5245465,-2773104,-3406544,-3132259,-2067621,830955,4374817,6440216,9146237,12061217,13626741,13936383,13506809,15175851,14898501},
{-30149969,-30053932,-28374453,-28943676,-31065886,-34886246,-38373909,-40086662,-41057217,-41330425,-41097610,-40422207,-39715618,-38101746,-37501911,-39544033,-40478344,-40994808,-43155861,-42056236,-40264290,-39329121,-37891384,-36745579,-36232872,-35083347,-33927834,-32538063,-30307137,-27936411,-25501614,-22786701,-20652210,-19117407,-18248856,-15874255,-14785694,-14595313,-13969297,-13438041,-12837838,-12378013,-12176923,-12360738,-12432966,-12338705,-12476287,-12468595,-12273582,-12185166,-12193698,-12122733,-12124450,-11612252,-11328616,-9452646,-10803701,-10902036,-11157449,-11316253,-11534660,-11722030,-11303679,-11180850,-10582660,-10478095,-10108130,-10090639,-10134957,-10063550,-9912848,-9251257,-9365232,-8768624,-8615244,-8653066,-8932076,-9329868,-9381243,-9640891,-10255448,-11291613,-11771160,-12077401,-12496213,-13017326,-13625120,-14938563,-15802585,-16906174,-18138306,-19092236,-20638294,-22125963,-23388948,-25038904,-26609840,-28841629,-30869289,-32993065,-34730743,-36336323,-38103699,-39205154,-40369102,-41251747,-42192810,-42816494,-43080799,-43622101,-44267941,-44402790,-44459953,-44608307,-44313412,-44678864,-44961700,-44523453,-43865398,-43763412,-42739697,-41993752,-41489479,-41371254,-41314594,-40898685,-40276245,-39141346,-37872120,-36103745,-35011272,-31862486,-30002218,-29227922,-28617682,-27464138,-26062365,-24716188,-22807543,-19390425,-13466510,-13179117,-10390423,-11545527,-11138995,-9520593,-7499043,-5537885,-4398411,-4735843,-4994005,-3773906,-2306552,-2741898,-5160195,-9281489,-8388247,-7458222,-7546972,-8748285,-10731002,-11700991,-10375927,-10031964,-8546394,-8165904,-6217432,-2397722,-3061885,-3031174,-1961477,780998,4399256,6641325,9222692,12320470,13639826,14002612,13587572,15211572,14898501},
{-30149969,-30053251,-28370367,-28920776,-31056471,-34581882,-38020073,-39857063,-40727512,-40952526,-40637497,-39916817,-39234688,-37335526,-37114086,-39010948,-39977001,-40520710,-42260868,-40639648,-40026737,-39074478,-37228722,-36324856,-35686268,-34545441,-33470085,-32007053,-29991430,-28442131,-24776485,-22574909,-20497162,-18663979,-17677744,-14850312,-14358632,-13746574,-13377363,-12644678,-12373253,-11797626,-11861502,-11803251,-12064725,-12027314,-12149053,-12198162,-11975828,-12106700,-12019209,-12093742,-11927383,-11647312,-10833554,-11040218,-10847490,-10887880,-10926389,-11111408,-11306983,-11141567,-10971012,-10715560,-10100215,-9703006,-9631572,-9657508,-9648522,-9481425,-9174181,-8559682,-8768027,-8218410,-8359188,-8472790,-8640067,-8989387,-9198988,-9696739,-10253427,-11377130,-12265751,-12957437,-13403786,-13642362,-14478937,-15777389,-16952478,-17908766,-19411140,-20465609,-21975952,-23261673,-24598635,-26140203,-27864239,-30051310,-32257214,-34220825,-35932674,-37509186,-39180218,-40412590,-41479420,-42341423,-42881947,-43552288,-44207054,-44326096,-45203548,-45486954,-45551495,-45218201,-45304867,-45449223,-45390522,-45263882,-44283913,-43908314,-43286861,-42171009,-41566021,-41570606,-41291336,-40528877,-39716377,-38895107,-37203163,-35433590,-33423897,-32376995,-29608686,-29031065,-27606947,-26850281,-25907774,-24633013,-22865532,-16547348,-15888863,-13384624,-11866552,-12129350,-12662877,-10722308,-8153542,-7396701,-5595362,-7854361,-6894996,-5506814,-4475161,-5380720,-7985125,-10517660,-10355670,-8870353,-8370658,-8660749,-11065053,-12088552,-9957261,-10318025,-9319407,-9495559,-7372578,-3455868,-2827153,-2945456,-1822586,738858,4366945,6792547,9297524,12531377,13636382,14041033,13677478,15249480,14898501},
{-30149969,-30052486,-28364050,-28898159,-30924290,-34277328,-37652889,-39599930,-40366825,-40561691,-40192551,-39442619,-38784222,-36909286,-36781822,-38462448,-39461216,-39924210,-41306419,-40424618,-39577171,-38070248,-36753586,-35902058,-35183285,-34038441,-32914490,-31478453,-29703119,-28182083,-24540024,-22522997,-20504208,-18375137,-16820955,-14230141,-13783468,-13020121,-12734947,-12140286,-11930848,-11310736,-11488741,-11351336,-11629316,-11626356,-11762875,-11885965,-11821212,-12010118,-12039631,-11948034,-12093389,-11942260,-11616637,-11214749,-11319077,-11285483,-10838881,-11074803,-11105166,-10809103,-10723055,-10284671,-9793191,-9497856,-9065677,-9051332,-9104290,-8614583,-8313741,-8059867,-8126599,-7680424,-7859153,-8092808,-8501814,-8768036,-9164979,-9710448,-10567022,-11321150,-12641179,-13196101,-13992867,-14252458,-15164058,-16639608,-17724499,-18793989,-20328371,-21687439,-23082428,-24486794,-25942360,-27297430,-28819874,-31103554,-33209576,-35031830,-37005596,-38645348,-40146431,-41620899,-42551872,-43476986,-43869438,-44469521,-45123474,-45691727,-46091454,-46122929,-46160320,-46125320,-46291851,-46227226,-45938545,-45342312,-44721722,-44094955,-43191029,-42337578,-41616623,-41394192,-41088524,-39926563,-38517715,-37779175,-37066547,-33097191,-30135384,-28861866,-26354347,-24117851,-23374859,-22329750,-22979877,-23385149,-20063316,-16632467,-16026293,-12482941,-12917001,-12996097,-13137881,-10986563,-9871464,-8349464,-8728196,-10442811,-10696669,-8672421,-7290056,-8083029,-9288553,-11223610,-11801490,-10309089,-8705548,-7756678,-11975762,-12539974,-9616355,-10164455,-9680680,-10675018,-7821890,-4263641,-2509957,-2525568,-1625761,847237,4358354,6832085,9404895,12714470,13635093,14074364,13770271,15290848,14898501},
{-30149969,-30051353,-28357368,-28874243,-30834063,-33985298,-37278107,-39304764,-39975391,-40151443,-39768440,-38964809,-38355331,-36598732,-36393196,-37898659,-38963379,-38926010,-40607010,-40565689,-39368889,-37627827,-36597065,-35664898,-34650146,-33519199,-32292885,-30841682,-29269543,-27076427,-24163166,-22284954,-20116491,-18226982,-16195780,-13671472,-13251657,-12484525,-12246969,-11498938,-11485122,-10885957,-11474240,-11143181,-11216002,-11578271,-11492908,-11711091,-11838394,-12042881,-12484714,-12320653,-12379646,-10841937,-11331631,-11526906,-11497260,-11092669,-10737154,-10721706,-10788992,-10552993,-10353420,-9707743,-9179572,-8851231,-8594822,-8246155,-8258996,-7684208,-7652647,-7322982,-7361857,-7225243,-7412131,-7774087,-8239929,-8458196,-9126312,-9554829,-10645156,-11447325,-12806793,-13535352,-14346424,-14694156,-15698089,-17021774,-18327320,-19777641,-21136894,-22575096,-24063871,-25360880,-27021273,-28280495,-29839125,-31825256,-34085148,-36053574,-37800793,-39408363,-40998730,-42525417,-43420116,-44337719,-44787285,-45215931,-45724934,-46320320,-46864826,-46921532,-46786285,-46678707,-46787270,-46625072,-46354164,-45742462,-44896034,-44178474,-43239433,-42253002,-41927441,-41010525,-40579399,-39401691,-37679863,-36499371,-32787746,-29394979,-27405203,-24230042,-23260996,-23056709,-22740812,-22221766,-20884178,-20366262,-19983746,-20272861,-15294870,-13028200,-13956526,-13915817,-13340173,-12426452,-11193113,-10246607,-11744053,-12297482,-12336803,-11966063,-11127546,-10442845,-10578382,-12630989,-13147187,-11264433,-9170740,-7956103,-12544595,-12874583,-9851807,-9914350,-9914699,-11427876,-7710804,-4868299,-2329000,-2063191,-1527708,898835,4416900,6906873,9552165,12883471,13649702,14128849,13858194,15336941,14898501},
{-30149969,-30049572,-28351875,-28849499,-30722090,-33688007,-36894257,-38972958,-39543800,-39718426,-39353268,-38496883,-37932251,-36339046,-36002682,-37272366,-38492374,-37586182,-39923672,-40515530,-39299122,-37029881,-34765091,-35363144,-34215450,-33006813,-31764874,-30100986,-28938030,-26278393,-23919031,-21921516,-19670876,-18254362,-15244116,-13208458,-12682507,-11972882,-11720711,-11061786,-10824929,-10627775,-10772032,-11039698,-10815843,-11251731,-11290835,-11707000,-12070131,-12367542,-12603626,-12487422,-12621625,-11691281,-11683051,-12290932,-12174452,-11021841,-10726056,-10706399,-10636756,-10285412,-9883783,-9236161,-8791374,-7695007,-7843078,-7761302,-7496118,-6867518,-6870020,-6591355,-6608274,-6718183,-6797471,-7409118,-7811746,-8228500,-9003849,-9534526,-10798413,-11825384,-13176804,-13939986,-14534184,-15017209,-16235695,-17594355,-19128149,-20435431,-21927143,-23353447,-24847998,-26174068,-27740177,-29080034,-30735929,-32406399,-34693840,-36742825,-38358200,-40139755,-41537605,-42935802,-43914791,-44754940,-45124718,-45780796,-46248203,-46759987,-47314091,-47033665,-47252422,-47037590,-47033142,-46997467,-46184540,-45815990,-45006878,-44170841,-43280643,-42268848,-41310844,-40597321,-39621780,-39334244,-36937634,-32936565,-31767843,-29806709,-27456484,-24761837,-22737631,-21008484,-20650854,-20822765,-19776754,-19946789,-21657095,-18312454,-15286420,-14436067,-14596037,-13806719,-14198427,-12693178,-13046724,-12348050,-13409339,-13617581,-12828206,-12789360,-13441465,-12282350,-12487638,-14237432,-14540574,-12696888,-10144773,-9127356,-12653042,-14120870,-10288144,-10315336,-10199636,-11517015,-7717965,-5107986,-2315516,-1522415,-912159,1079046,4457764,7056564,9667336,13002709,13689345,14209880,13937394,15388845,14898501},
{-30149969,-30047005,-28346840,-28824949,-30611122,-33395191,-36513878,-38609783,-39076878,-39256680,-38944496,-38019306,-37486546,-36095177,-35576447,-36585426,-37985260,-36165649,-38355717,-40412327,-38019947,-36549236,-35741261,-34929131,-33794022,-32540073,-31350826,-29670933,-28637339,-25847311,-23761786,-21504602,-19306664,-18613314,-14302140,-12644160,-12299354,-11425613,-11207035,-10677982,-10558177,-10541389,-10419629,-10934724,-10589405,-11168033,-11138868,-11604126,-12222282,-12528325,-12748185,-12866171,-12484831,-12088340,-12054942,-11208309,-11899152,-10817636,-10782066,-10559808,-10431481,-9975833,-9757315,-8829503,-8124227,-7572954,-7191816,-7039937,-6724988,-6065811,-6107529,-5861339,-5995591,-6038260,-6396533,-6845469,-7440108,-7825520,-8714260,-9625608,-10651231,-12166574,-13453996,-14248109,-14804041,-15620301,-16987593,-18067707,-19835550,-21073587,-22581974,-24093786,-25444092,-26959972,-28413462,-29530544,-31290802,-32960030,-35014198,-37151325,-39002171,-40596985,-41884682,-43156349,-44302750,-44904068,-45657192,-45676899,-46642422,-47139034,-47478558,-47540123,-47422890,-47374298,-46932320,-46713470,-46397385,-45568554,-44685467,-43987389,-42806622,-41742279,-40863312,-39844749,-39014935,-36467773,-33574402,-32695045,-30889582,-27000561,-23710402,-22669352,-21752083,-20201885,-20101622,-20572565,-19580868,-18292505,-17186220,-16082541,-15499265,-15102479,-14358717,-13559360,-13761374,-14090705,-14100076,-13800838,-14934966,-14871659,-14073131,-14033485,-14183201,-13407769,-14126102,-15464367,-16147627,-14566627,-10963583,-10078542,-13731659,-14252937,-10935921,-10469055,-11005745,-11602880,-7788711,-5151866,-2664469,-933342,-366983,1285376,4515569,7174558,9747368,13050446,13777270,14311548,14010103,15447240,14898501},
{-30149969,-30043701,-28340401,-28798399,-30476250,-33101761,-36131809,-38204754,-38578697,-38783405,-38544754,-37541119,-36996468,-35826042,-35109631,-35857567,-37461796,-35212528,-36736080,-39739029,-37571342,-36481201,-35392906,-34623127,-33327370,-32097645,-30920534,-29391912,-27660067,-25548412,-23500530,-21115368,-19171034,-18322081,-14281613,-12590308,-11758744,-11208940,-10683707,-10284711,-10103876,-10231620,-10200401,-10601680,-10499020,-10765790,-11128837,-11407857,-12119703,-12541275,-12819672,-12744452,-12575937,-12455937,-12101745,-11979846,-11428451,-10795424,-10754848,-10538495,-10335007,-9875859,-9296406,-8400586,-7735955,-6916308,-6671641,-6336125,-5917325,-5499601,-5249325,-5216876,-5314393,-5555463,-5824362,-6447387,-7012407,-7724606,-8671342,-9651095,-10870123,-12469398,-13320690,-14425348,-15063473,-16203701,-17398169,-18639381,-20197929,-21737038,-22984150,-24687981,-25922043,-27476341,-28755041,-30116535,-31779114,-33188530,-35278706,-37229343,-39299046,-40722809,-42244579,-43247040,-44316776,-44817497,-45618969,-45926674,-46507317,-47039101,-47388573,-47293564,-47364010,-47101086,-47036327,-46415493,-46051128,-45186497,-44105949,-43000652,-42463390,-41257679,-40803913,-38303989,-36116520,-33732258,-34189495,-32232876,-25779268,-23797308,-23336422,-21630520,-20240931,-19744663,-18793077,-19291580,-20620491,-19971157,-17967842,-15339311,-15545359,-15588066,-14397243,-13211075,-13362619,-15757794,-15178575,-14691298,-15402953,-17031755,-16094467,-15867817,-14736256,-15593328,-16178425,-15910119,-17002222,-15800137,-12018299,-11576380,-15058998,-14665713,-11819148,-10717225,-11542193,-11851401,-7735882,-5211330,-3080481,-551681,158968,1534799,4605100,7244918,9856777,13101477,13940864,14436745,14081564,15512192,14898501},
{-30149969,-30039898,-28332258,-28768579,-30333736,-32808544,-35746162,-37763199,-38059299,-38302261,-38158577,-37069687,-36459316,-35494511,-34645840,-35100658,-36958843,-34508801,-35353306,-39689220,-37188766,-35639687,-34828159,-34164337,-32904232,-31688408,-30392601,-29042274,-26944201,-25150885,-22854218,-20707172,-19269922,-18026188,-14098776,-12423160,-11631361,-10985528,-10418785,-9971629,-9715714,-10045093,-10042998,-10302347,-10334716,-10645611,-10924953,-11282107,-11981322,-12478729,-12544258,-12731878,-12638988,-12263200,-11876698,-11413847,-11415201,-10959395,-10633046,-10482405,-10111265,-9633796,-9134058,-8085279,-7286561,-6704685,-6042409,-5678925,-5248689,-4914499,-4673381,-4605029,-4601318,-4888393,-5314746,-5900840,-6519811,-7577381,-8408114,-9783184,-10968306,-12439296,-13321238,-14614192,-15264290,-16610661,-17730703,-19219551,-20566977,-22034657,-23452393,-24988163,-26427494,-27760149,-29115200,-30348747,-31857468,-33480640,-35315254,-37188614,-39257805,-40781052,-42176273,-43027954,-43889328,-44725952,-45267406,-45860645,-46289654,-46635292,-47031143,-47278809,-47034431,-46766468,-46734268,-46093029,-45511494,-44693268,-43955750,-42471054,-41712921,-41150372,-39055115,-38246342,-36864513,-32965157,-31727547,-26150881,-24773417,-24555199,-23151590,-21591711,-19967634,-18826159,-17708048,-17851805,-20897886,-20149168,-18726223,-16206375,-15248120,-16123764,-13993403,-13737432,-14679854,-16821836,-16385767,-15673325,-16878027,-18168180,-17064583,-18191874,-17450418,-17880835,-17510406,-17731884,-17605490,-16480343,-14286437,-13013720,-16522890,-15257114,-12595154,-11378762,-11551023,-11979333,-8299438,-5227916,-3073023,-210481,744597,1764287,4589200,7291161,10005315,13200569,14161436,14583086,14154877,15583037,14898501},
{-30149969,-30035929,-28324146,-28735100,-30181211,-32518108,-35369465,-37297035,-37532555,-37821400,-37806644,-36610527,-35878277,-35119793,-34189739,-34366737,-36416721,-34144608,-34208351,-38970791,-36771564,-34907955,-34349407,-33711575,-32469315,-31215971,-29830873,-28634298,-26908594,-24886091,-22744627,-20755692,-19158228,-17604053,-13978135,-12611885,-11428491,-10808417,-10172404,-9930095,-9564260,-10127993,-9786855,-10096238,-10224624,-10406264,-10935802,-11262479,-11872888,-12109188,-12393577,-12623024,-12478429,-12207766,-12024008,-11964969,-11069574,-10806586,-10510046,-10320692,-9658702,-9386675,-8956124,-7779542,-6842508,-5844322,-5519039,-5065763,-4624992,-4288155,-4079643,-4040857,-3993140,-4311466,-4681255,-5454477,-5963279,-7127344,-8247340,-9367261,-10905332,-12289089,-13303317,-14526358,-15500372,-16575596,-17813873,-19381338,-21035379,-22287567,-23808756,-25133011,-26514595,-28079927,-29217302,-30792225,-32073727,-33341831,-35267754,-37156994,-38983845,-40480019,-41679554,-42939571,-43589306,-44300537,-44539013,-45078484,-45614372,-46164185,-46350830,-46523678,-46500042,-46091656,-45792309,-45153641,-44943935,-44104687,-43105236,-41931122,-40931187,-39480843,-38356636,-37087624,-34879951,-31831335,-28173313,-26119993,-25365561,-23805555,-22260902,-20483631,-18647829,-17946348,-17359344,-16657812,-18227043,-19001986,-17780809,-15841015,-15849840,-14950745,-14072439,-13901644,-15435376,-17090504,-17594395,-17547173,-18997950,-19081463,-18185972,-20304596,-19999468,-19527552,-18869642,-19162268,-18197170,-16963663,-16320202,-14969138,-17377466,-15325731,-13048741,-12076667,-11454464,-11884967,-8369910,-5266488,-2759563,244348,1438398,2004552,4510728,7310039,10218368,13334938,14403048,14727498,14228941,15658402,14898501},
{-30149969,-30032091,-28317337,-28696209,-30009413,-32221474,-34990788,-36802742,-36996445,-37370163,-37485790,-36177876,-35288849,-34706886,-33797836,-33650967,-35792179,-34129414,-33585533,-38083069,-36364655,-34889427,-33788044,-33252171,-32128262,-30735296,-29395126,-27928530,-26421862,-24655853,-22640463,-20897503,-19219957,-16703257,-13942682,-12690854,-11566431,-10913142,-10351890,-9901941,-9316690,-9746601,-9566731,-9771510,-10032417,-10552566,-10836876,-11104633,-11658296,-11851891,-12144035,-12249712,-12236834,-12051832,-12088741,-11660173,-11177678,-10776054,-10416574,-10059774,-9642269,-9087617,-8523387,-7376330,-6565686,-5655696,-5069080,-4625872,-4096834,-3778483,-3555654,-3522963,-3444171,-3677870,-4084852,-4765238,-5345690,-6651429,-7696702,-9038562,-10607522,-11737508,-13286708,-14225531,-15354390,-16455441,-17856524,-19387589,-21016701,-22299301,-23879282,-25167337,-26447412,-27802809,-29233759,-30805511,-32124798,-33417339,-35117088,-36623257,-38461578,-39782162,-40913204,-42166252,-42989407,-43549526,-43927200,-43798050,-44820549,-45338066,-45506363,-45814243,-45523979,-45421124,-44893124,-44512821,-44037289,-43231773,-42629787,-41833595,-40188572,-38669132,-36745750,-33452141,-31867561,-31315001,-29258514,-27196770,-25065382,-22540401,-21164333,-19526253,-17551994,-16434650,-17324959,-15267978,-16846178,-17728069,-16560518,-15001440,-14938300,-13696224,-12079608,-14291271,-16523794,-17380312,-18511612,-19259521,-20245251,-19568750,-20372063,-22304983,-21900408,-21380798,-20653503,-19573139,-18387972,-17758352,-17481524,-16729601,-17408861,-15811503,-13769893,-13019321,-12317439,-11705881,-8094796,-5554792,-2526249,649066,2249356,2286548,4426360,7301721,10458365,13517430,14655116,14860203,14301069,15736360,14898501},
{-30149969,-30028526,-28310812,-28655182,-29833458,-31921253,-34624786,-36292831,-36470081,-36941845,-37193077,-35799763,-34742531,-34243362,-33414551,-32976128,-35135426,-34351974,-33047935,-37317806,-35681629,-34409893,-33376572,-32705704,-31680073,-30373198,-29209482,-27640203,-26008995,-24626568,-22727890,-20818350,-19527384,-16868359,-14006135,-12772253,-11754991,-10975627,-10432721,-10053597,-9512273,-9567853,-9669620,-9692205,-9926769,-10208859,-10613884,-10892862,-11407055,-11470197,-11779480,-11900928,-11877481,-11691894,-10714406,-11400948,-11123940,-10596232,-10285716,-9796626,-9386045,-8821961,-8138609,-7152763,-5841774,-5439128,-4711587,-4308012,-3706213,-3359320,-3102429,-2946219,-2884902,-3198898,-3611837,-4213205,-4828449,-5874842,-7094706,-8606339,-10268864,-11625614,-12916248,-13971794,-15281059,-16481918,-17716324,-19272131,-20744368,-22215466,-23674419,-25034163,-26288576,-27641741,-28988644,-30530947,-31690058,-33054649,-34673397,-36160309,-37614964,-38953125,-40170967,-41163464,-42014332,-42338516,-43169552,-43352863,-43709991,-44078854,-44299480,-44471664,-44605358,-44457573,-44078335,-42575119,-42947063,-42678650,-43809689,-40501377,-38130692,-34120514,-32275532,-34118477,-31613123,-31259033,-28598402,-26558496,-24759863,-21600832,-19803068,-18084791,-16111891,-16404049,-15286273,-14032681,-15879461,-15740790,-15722121,-14307891,-14655437,-13120917,-11771611,-16327730,-17507456,-18093184,-19241552,-19908159,-21188004,-19778078,-22212503,-24373196,-23886421,-23427406,-22143623,-20377741,-18400520,-18836325,-17863914,-18036757,-17527178,-16355114,-14659127,-13595703,-13949955,-11267438,-7583303,-6057388,-2485427,833627,3071952,2661143,4474224,7387028,10639073,13718908,14898823,15003695,14370785,15814692,14898501},
{-30149969,-30025141,-28302801,-28617098,-29629200,-31629070,-34261497,-35763020,-35957333,-36547829,-36914036,-35479794,-34290123,-33794502,-33030922,-32343075,-34347683,-34455437,-32516457,-36674030,-35143394,-33818581,-32710079,-32230732,-31316584,-30075830,-28979633,-27301781,-25674053,-24273096,-22721487,-21360466,-19638977,-16914261,-14205704,-12838535,-11818387,-11090764,-10660528,-10166510,-9829288,-9419682,-9453363,-9421825,-9712789,-10038259,-10604543,-10619835,-11035313,-11278923,-11502228,-11628024,-11610877,-11471679,-11133949,-10965446,-10990185,-10500903,-10017509,-9715224,-9027398,-8578246,-7789250,-6682692,-5528399,-5161288,-4439629,-3922836,-3395563,-3073737,-2801490,-2550582,-2520282,-2733231,-3241033,-3754546,-4495176,-5368012,-6586088,-7969586,-9404372,-11243674,-12599942,-13888019,-15120708,-16330915,-17599581,-19139116,-20532404,-21859037,-23263704,-24532730,-25770962,-26927849,-28534250,-30164215,-31310551,-32650188,-33872978,-35392303,-36945045,-38005386,-39079838,-39940704,-40462074,-41001026,-41408264,-42082748,-42567318,-42610657,-42861763,-42994686,-43212627,-42901379,-42493088,-42325359,-41863270,-42700050,-37575291,-37731480,-34638630,-34845150,-35611530,-34062786,-32309013,-30124041,-28371542,-26123457,-23658169,-21128845,-19116907,-17147200,-15140093,-15139542,-12641146,-13404612,-14447040,-14545861,-14958445,-14947097,-13373600,-13353112,-15456313,-17963491,-18710394,-18786034,-20042496,-21866367,-22698069,-21085608,-24090372,-26314016,-26007849,-25168297,-23294012,-21357742,-19603708,-19615580,-20524635,-19237667,-17732725,-16598206,-15715489,-14427663,-14732430,-11023710,-7531252,-6635469,-2449738,678526,3975003,3088883,4604637,7505183,10788789,13890495,15092949,15161168,14440572,15891201,14898501},
{-30149969,-30021624,-28293554,-28577869,-29434435,-31314022,-33912975,-35227215,-35443752,-36190968,-36642902,-35200592,-33954899,-33401104,-32648289,-31811235,-33519077,-34255463,-32075375,-35687302,-34712132,-33648441,-32085228,-31544287,-30820820,-29668133,-28375128,-26972885,-25466923,-24101833,-22799490,-21726313,-18636827,-16680479,-14179671,-12880939,-12139920,-11285070,-10915577,-10325434,-9982671,-9343972,-9319198,-9410357,-9575774,-9836683,-10188722,-10478524,-10657057,-10955375,-11181087,-11343142,-11243671,-10406126,-10719154,-10835972,-10813965,-10083370,-9793634,-9319742,-8852324,-8226866,-7318444,-6453270,-5662324,-5208329,-4402953,-3432842,-3186126,-2821221,-2615062,-2236901,-2179201,-2434690,-2849862,-3418480,-4059734,-5054360,-6197833,-7445543,-8769938,-10458557,-12103284,-13537614,-14801536,-16004324,-17343136,-18684631,-20061192,-21408350,-22633923,-24021023,-25091322,-26413677,-27882820,-29418539,-30683006,-32049488,-33128956,-34289436,-35667995,-36597176,-37627426,-38414867,-38877613,-39408752,-39700630,-40368732,-40768288,-40961182,-41385395,-41615173,-41756836,-41562168,-41373142,-40895763,-41014919,-37297947,-37592831,-35120811,-36435925,-35718086,-34718460,-32964565,-31245836,-28731976,-26676945,-25807009,-22442396,-20670174,-18925930,-17386602,-14887511,-13468912,-11240036,-12277330,-13408536,-13857816,-14872250,-14006771,-15320143,-16896795,-18291592,-19558506,-20080610,-20410727,-20969814,-22028130,-23809471,-23852348,-26007889,-27829878,-27754375,-26568405,-24013405,-22275974,-21120157,-21705162,-23229094,-20090515,-18074669,-16765192,-16731411,-15825670,-15030190,-11398074,-7757274,-6995891,-2645564,446941,4845156,3470064,4807134,7680247,10955961,14031270,15252490,15292119,14513280,15963986,14898501},
{-30149969,-30017536,-28285242,-28533401,-29232075,-30993374,-33568058,-34698700,-34954063,-35852463,-36360970,-34928490,-33764664,-33097683,-32251167,-31389639,-32674984,-33774040,-31752537,-34845898,-34356449,-33415821,-31495537,-30991131,-30175739,-29349541,-28055441,-26540630,-25329798,-23935171,-22667974,-21907764,-18513584,-16435572,-14258883,-13173643,-12142647,-11441760,-11156775,-10411500,-10021769,-9432920,-9222176,-9218210,-9421522,-9671461,-9995813,-10205313,-10470129,-10664514,-10784950,-11027050,-10552188,-9986181,-10466605,-10623234,-10146504,-9833000,-9437602,-8898829,-8602567,-7889617,-6684005,-6025402,-5525451,-4853594,-4250910,-3860866,-3125834,-2646976,-2262491,-1965303,-1924063,-2111370,-2638613,-3193015,-3912618,-4940425,-5980716,-7067656,-8427636,-9980694,-11426987,-13405032,-14564010,-15601722,-16923433,-18195387,-19514713,-20773994,-21917809,-23347231,-24488514,-25831482,-27167130,-28562561,-29838402,-31105902,-32095238,-33114845,-34283058,-35305264,-36337242,-36852272,-37376392,-37778114,-38187935,-38400654,-38932327,-38990150,-39480988,-39801174,-39872337,-39838840,-40227200,-39212463,-36914860,-37176979,-34879543,-36166840,-35328495,-34525063,-32918365,-31853664,-29995209,-26381884,-24033756,-22831467,-21283398,-20166069,-18784828,-17043413,-14639467,-13067700,-10620618,-11008180,-11928457,-12942407,-12346578,-14403550,-16943752,-17570183,-19440798,-20893333,-21609734,-21612356,-22309380,-23151768,-24233498,-26686693,-27854324,-29248665,-28775728,-27421177,-25301613,-23530844,-22322664,-23397331,-25011051,-20810476,-19050661,-16949558,-17601322,-17060728,-15313406,-11759531,-8039064,-7343540,-2924596,263411,5608845,4030648,5027139,7866280,11151637,14125610,15414620,15369514,14589623,16031654,14898501},
{-30149969,-30012459,-28278952,-28489758,-29029596,-30653065,-33211201,-34166084,-34478779,-35518391,-36047714,-34643948,-33665951,-32854427,-31826742,-31034000,-31946827,-33196079,-31190113,-34248474,-33673985,-32957363,-31150810,-30292805,-29464647,-28721226,-27474047,-26152935,-25160976,-23806450,-22423201,-21919558,-19025845,-16541168,-14251137,-13389815,-12118314,-11542970,-11218032,-10604702,-10228083,-9524955,-9440293,-9349785,-9472834,-9580759,-9788253,-9891925,-10127086,-10522401,-10599509,-10486812,-10282129,-10242732,-10352666,-10118269,-10216139,-9358941,-9073922,-8729864,-8258341,-7679651,-6645947,-5699306,-5137362,-4601959,-4039230,-4386962,-3107615,-2612355,-2085406,-1866381,-1886475,-2097252,-2557532,-3121757,-3832022,-4690328,-5787811,-6878012,-8199218,-9485327,-10990520,-12444626,-14129467,-15383498,-16419369,-17772871,-19030176,-20283871,-21477566,-22779417,-23787563,-25076536,-26491278,-27686483,-28896536,-29904196,-30741991,-31832146,-32720390,-33292358,-34555275,-35211365,-35866211,-35792759,-36204712,-36488674,-36864471,-36551559,-37403492,-37855682,-37935287,-38334423,-36726322,-36327312,-36030727,-35463219,-35895115,-34432701,-32958267,-32263798,-31327442,-30914917,-28163916,-24404823,-23222504,-22666410,-18961224,-18402788,-17662622,-16930664,-14629171,-11573198,-10644504,-9192438,-11455452,-12696126,-13845269,-14653452,-17680988,-18840023,-19785240,-21701326,-22862379,-23180973,-23476797,-24833939,-26070429,-28472107,-29219131,-30002996,-29590372,-28519091,-27016140,-24854044,-23750719,-24434183,-26474079,-21695868,-20045303,-18177074,-18293716,-18180702,-15816469,-12031935,-8896885,-7683244,-3050485,-311156,5944260,4728233,5200262,8046963,11362744,14190693,15548348,15409888,14668284,16093418,14898501},
{-30149969,-30006123,-28272993,-28449314,-28826611,-30301357,-32846046,-33638077,-34009338,-35166454,-35676075,-34312691,-33610004,-32667088,-31373222,-30756609,-31349457,-32322723,-30295151,-33687107,-33069508,-32230576,-30852633,-29463589,-28810589,-28060835,-26994102,-25854836,-24940737,-23620928,-22243073,-21211811,-18963669,-16387629,-14230714,-13293367,-12276064,-11608935,-11363001,-10758688,-10451946,-9709090,-9527648,-9433146,-9490561,-9608802,-9748338,-9849523,-9997217,-10120980,-10311463,-10210002,-9826042,-9912050,-9888335,-9972517,-9960958,-9533086,-8855749,-8527053,-8027115,-7272234,-6393664,-5160496,-4914013,-4553965,-4229742,-3702852,-2992781,-2565039,-2081986,-1887698,-1930892,-2181883,-2625434,-3130590,-3821378,-4564287,-5574793,-6743498,-7968282,-9240661,-10631807,-11979157,-13213259,-14721317,-16162563,-17278322,-18644585,-19835648,-20902052,-21957144,-23031271,-24441402,-25570635,-26691195,-27719765,-28293442,-29375145,-30139759,-31141491,-31711063,-32761360,-32925915,-33552456,-33807339,-34300247,-34969406,-34986961,-34822697,-35493557,-35852760,-36248901,-36422859,-35206490,-33534000,-35061817,-35542233,-33787350,-32967461,-31671968,-30214619,-30032619,-29027630,-26170755,-24356197,-23247011,-22911898,-20241812,-18031981,-15770175,-14486510,-13681251,-10719073,-9072645,-8062294,-10648949,-11210344,-14442789,-15265787,-17723551,-18906418,-19887154,-21796606,-23239069,-24156364,-24962793,-25894602,-27990866,-29701139,-30222296,-30973385,-30294865,-29297209,-28110783,-26403656,-25037607,-26118830,-27919130,-23169336,-22010843,-20500111,-19080353,-18900028,-16152933,-12535431,-9568831,-7809435,-3231406,-697939,5870463,5394353,5337255,8258039,11611133,14274142,15615356,15432826,14747544,16149113,14898501},
{-30149969,-29998493,-28265066,-28405838,-28609976,-29943562,-32471786,-33118931,-33536125,-34783890,-35233082,-33894585,-33533047,-32505169,-30912491,-30511127,-30861528,-31409910,-29369297,-32706142,-32494617,-31527193,-30186970,-28657284,-28184225,-27486704,-26507841,-25515604,-24605127,-23229532,-22186428,-20063074,-18715000,-16100906,-14356508,-13274885,-12295615,-11699403,-11632113,-10742987,-10505784,-9838270,-9624429,-9492014,-9429877,-9598827,-9659302,-9793088,-9927312,-10183867,-10223163,-10056396,-9817009,-9730884,-9686004,-9596473,-9431707,-9227906,-8707712,-8307505,-7799753,-6927265,-6002813,-5087396,-4861398,-4580624,-4058256,-3572805,-2979331,-2611245,-2182934,-1990784,-2002128,-2275748,-2690177,-3149919,-3888379,-4597095,-5556115,-6594338,-7709040,-9077369,-10363898,-11706553,-12935529,-14211300,-15678061,-16910841,-18224249,-19355961,-20260817,-21333303,-22393122,-23541897,-24666988,-25545109,-26190985,-27036676,-28032070,-28659744,-29237871,-30033245,-30735142,-31033876,-31938063,-32324326,-32568897,-32932213,-33137012,-33389633,-33498711,-33902557,-34278236,-32331120,-32724083,-34661144,-34219917,-33019905,-31978514,-31129204,-29960493,-28176397,-27816517,-27647245,-24275965,-24468134,-20921900,-21230286,-19831450,-20113293,-17875097,-13436189,-14286043,-10847342,-7393496,-7373573,-11074348,-12206290,-14694026,-15952628,-17688299,-19183535,-19487944,-21782080,-23637814,-24787472,-26902975,-27556107,-28943169,-30963833,-30943508,-31599178,-31416817,-30050335,-28944590,-27726049,-26607948,-27574383,-29418295,-25955269,-24643023,-22620359,-19771971,-19395792,-16372437,-12929343,-9730418,-7821121,-3515559,-902300,5502034,5910657,5640555,8493296,11868392,14413278,15620112,15441294,14825911,16199112,14898501},
{-30149969,-29989765,-28255320,-28360085,-28413866,-29593817,-32107079,-32605824,-33053753,-34361713,-34702705,-33381683,-33351288,-32307869,-30444969,-30279736,-30443850,-30555452,-28585686,-31364613,-32368370,-31314493,-29788307,-28329613,-27351568,-26797047,-25976791,-25068207,-24128443,-22647432,-21945826,-19430017,-18534445,-15966903,-14379590,-13250523,-12187894,-11849482,-11542003,-10763547,-10658705,-9929583,-9803523,-9429265,-9381014,-9550972,-9538574,-9682545,-9861190,-9973687,-10074504,-9912242,-9701116,-9647806,-9538166,-9340734,-8981492,-8940838,-8542586,-8092573,-7472029,-6659831,-5808319,-4959134,-4674314,-4417106,-4042189,-3553181,-2964870,-2753389,-2416709,-2312698,-2286124,-2400728,-2870786,-3223424,-4033143,-4713544,-5694643,-6759345,-7715134,-9102644,-10225199,-11495960,-12704773,-13846324,-15387965,-16640091,-17680946,-18737940,-19640680,-20525534,-21657478,-22664928,-23613590,-24350132,-24986593,-25540545,-26515181,-26965002,-27007427,-28217760,-28794615,-29714466,-29830240,-30446350,-30773750,-31291451,-31444410,-31171667,-31753233,-31965630,-32333500,-33019588,-33237644,-32190044,-31313885,-30266632,-28684700,-28527504,-27868526,-26939156,-26903305,-25290184,-22633316,-22888199,-20116852,-21012888,-19025112,-17587387,-16859446,-14076805,-13890217,-10461306,-9961061,-12435177,-12303263,-12456635,-14781645,-16187542,-17460539,-19608749,-19915123,-21921930,-24343353,-25720610,-27844055,-28484587,-30181925,-32048649,-31709463,-32224422,-32444275,-31019232,-30134724,-29230553,-28524765,-29273621,-30490807,-28611086,-26705738,-23806900,-20825809,-19800123,-16488089,-13454105,-9479354,-7744223,-4015827,-933432,4862200,6407446,6087587,8701734,12038404,14579867,15611824,15446964,14901564,16244215,14898501},
{-30149969,-29980268,-28246035,-28317974,-28215628,-29254221,-31737869,-32106392,-32569912,-33888851,-34099586,-32762657,-33033688,-32030788,-30000277,-30021105,-30022648,-29819082,-27913671,-29651831,-31931173,-30690773,-29486980,-28211798,-26985783,-26250175,-25536526,-24657200,-23626686,-22042387,-21383926,-19094049,-17609615,-15645288,-14235976,-13269358,-12428829,-12038191,-11482823,-10776442,-10695160,-10007396,-9737046,-9494755,-9419058,-9089133,-9344490,-9438417,-9685086,-9778314,-9849026,-9894144,-9764409,-9727869,-9439886,-9480865,-8777217,-8623726,-8239692,-7774623,-7184685,-6351753,-5575839,-4745614,-4583434,-4147990,-3861237,-3550094,-3095180,-2749961,-2657911,-2491330,-2577640,-2573630,-3057894,-3406276,-4161725,-4881626,-5885568,-6948618,-8003306,-9090130,-10108059,-11411063,-12593332,-13763655,-15117609,-16220928,-17306932,-18268932,-19069748,-20108179,-20865627,-21769789,-22568693,-23220978,-23764412,-24461079,-24939079,-25035559,-25351780,-26098822,-26900028,-27236973,-27759827,-28543514,-29181837,-29665506,-29754717,-30484095,-30332645,-30405594,-30734663,-31048143,-30364098,-29604122,-28512043,-27028288,-24927029,-25150454,-25422314,-25965937,-25525881,-23460155,-22207861,-20920826,-21361628,-20526567,-16756498,-15748985,-16052082,-15502251,-14560006,-14065714,-13065578,-10720634,-14018910,-14077490,-15928400,-16620352,-17446779,-19872965,-20312353,-22054100,-24918139,-26645548,-28753794,-29396963,-30374876,-33035305,-32668121,-33129650,-33362110,-32493984,-31871244,-31079845,-30176043,-31475536,-31411013,-29867584,-27897312,-24327452,-21371731,-19558468,-16582180,-13642836,-9242344,-7521007,-4179718,-777107,4071619,6822711,6400492,8920289,12209105,14726195,15647787,15474334,14972751,16285484,14898501},
{-30149969,-29970327,-28238300,-28276291,-28040247,-28923273,-31366812,-31629950,-32084942,-33351513,-33438591,-32071007,-32564350,-31647963,-29602724,-29704388,-29516293,-29330254,-27393133,-28054205,-31502712,-30239590,-29121386,-27649950,-26512051,-25750462,-25078835,-24066299,-23000635,-21510469,-20339939,-19276737,-17194246,-15458732,-14163621,-13179287,-12478713,-12023524,-11329733,-11001862,-10552254,-10112969,-9610501,-9397058,-9250177,-8944375,-9014283,-9187417,-9359776,-9437547,-9607074,-9527618,-9533730,-9384110,-9103215,-9282492,-8486194,-8244267,-7932497,-7474687,-7006898,-6020092,-5323717,-4527518,-4192489,-3838346,-3754837,-3446444,-3146866,-2972000,-2786236,-2668448,-2845333,-3091115,-3124005,-3729623,-4552040,-5248978,-6225366,-7233020,-8257212,-9297356,-10230084,-11324718,-12348102,-13441590,-14732321,-15805276,-16897301,-17726486,-18491570,-19261488,-19893635,-20745667,-21398199,-22048283,-22557880,-23058428,-23366291,-23339344,-23733187,-24234137,-24786476,-25296722,-25629194,-25944227,-26250982,-26970825,-27427773,-27996881,-29114195,-29801580,-29059101,-28626629,-27524742,-26441406,-23438141,-23350700,-23544378,-23977816,-25233725,-25666079,-24866085,-23846373,-22649260,-21934427,-19968712,-18535618,-15136067,-14324202,-12847221,-11394672,-13879371,-13293715,-9739948,-13781623,-14635148,-14599108,-16073725,-16906281,-18714184,-20860342,-21388300,-23055262,-25593105,-27494289,-28958019,-29631828,-31684603,-33228554,-34016499,-33891319,-34324661,-33514606,-33529827,-33150036,-31689333,-32134686,-31866678,-30669455,-27957125,-24392426,-21477621,-19472082,-16648670,-13664957,-9318052,-6944210,-4039469,-587439,3393604,7133835,6513174,9069935,12359362,14823933,15754594,15533309,15039954,16324066,14898501},
{-30149969,-29960131,-28230261,-28230223,-27888222,-28590273,-31016283,-31168615,-31595503,-32772400,-32749184,-31370352,-31960825,-31152805,-29221022,-29320227,-28955864,-28302570,-26848482,-26779226,-30657322,-29888575,-28776997,-27398939,-26065327,-25384151,-24568335,-23552498,-22457052,-21008766,-19759096,-18774248,-16848124,-15426733,-14214550,-13183658,-12342829,-11811276,-11092369,-10943992,-10295301,-10017929,-9503940,-9216667,-8895544,-8686774,-8859972,-8877450,-9031902,-8955812,-9177901,-9300972,-9313111,-8988583,-8839635,-8568700,-8146351,-7880929,-7731035,-7064016,-6663501,-5871296,-4990122,-4094729,-3789304,-3497930,-3554660,-3452021,-3088499,-2927393,-2967145,-2866356,-3039512,-3453659,-3582046,-4294109,-4888150,-5844305,-6658170,-7699153,-8753210,-9596451,-10488087,-11491993,-12467351,-13388607,-14471270,-15550249,-16468449,-17221752,-18011295,-18464003,-18920849,-19523781,-20281597,-20740559,-21180439,-21545158,-21724272,-21631340,-22048836,-22163620,-22531702,-22925732,-23225693,-23429028,-23621191,-24133453,-24636015,-27317589,-29211216,-26395287,-25224714,-24993938,-22644821,-21218607,-21156097,-22777800,-24042667,-24494884,-24518246,-24189018,-23712717,-22653795,-21289141,-20213333,-19203005,-16886908,-15906320,-13752671,-12724483,-11248382,-12467440,-14041861,-14434692,-14789729,-15675233,-15829549,-16633648,-16943811,-19213123,-20843098,-21635040,-23387959,-25595026,-27923285,-29004158,-29874315,-32409081,-34045956,-35125244,-35383125,-35212940,-34582066,-33867561,-33513870,-32871204,-32977455,-32513004,-30946594,-27844877,-24421083,-21575245,-19868578,-16632643,-13699599,-9230045,-6471846,-3803570,-109172,2929474,7285833,6723948,9160782,12515012,14896009,15919995,15612893,15107430,16361019,14898501},
{-30149969,-29949646,-28219276,-28185064,-27742405,-28265373,-30655796,-30734051,-31115644,-32156277,-32055664,-30725035,-31288849,-30543379,-28862944,-28856651,-27934340,-27268965,-26481302,-25853699,-29996571,-29057384,-28392464,-26999329,-25783773,-24839397,-24029734,-23088810,-22048561,-21005777,-19692112,-17664772,-16633013,-15115364,-13937056,-13039053,-12009394,-11762070,-11256742,-10903967,-10253958,-10043122,-9347103,-9166197,-8733037,-8289395,-8676422,-8537883,-8758494,-8565351,-8810785,-8869684,-8919527,-8624197,-7952569,-7852275,-7723573,-7382698,-7345687,-6821932,-6247019,-5726917,-4618813,-3864203,-3591178,-3132759,-3177032,-3176640,-2945499,-2957952,-3101906,-3209784,-3340436,-2973288,-3994832,-4790014,-5417979,-6408602,-7426366,-8362375,-9228711,-10116729,-10848301,-11808159,-12765007,-13421822,-14404284,-15388993,-16124615,-16788994,-17383486,-17792292,-18144667,-18625523,-19173473,-19327559,-19760849,-19797331,-19994947,-19880730,-20058069,-20110836,-20318619,-20548477,-20842842,-20920944,-21336664,-21726564,-22713434,-24352547,-20921341,-21390335,-22113745,-20691620,-19464504,-20643646,-20818426,-22255411,-23397738,-23898487,-23888956,-23803551,-23415802,-22410067,-23042225,-21841654,-18849571,-17514353,-16797600,-15502112,-17560040,-15521363,-14224630,-15215351,-14658173,-14404719,-15973911,-16237936,-17162880,-17540190,-19194017,-20599033,-22076008,-24303980,-25993868,-28839863,-29713837,-30940292,-32734932,-34868389,-35849689,-36679157,-36393078,-35976631,-34901993,-34350872,-34160885,-33777035,-33256245,-31514301,-28292608,-24867485,-22073025,-20047728,-16519604,-13550030,-9365361,-6337672,-3806175,381213,2641553,7331081,7105608,9312542,12670375,14928432,16091867,15707870,15181394,16397146,14898501},
{-30149969,-29938620,-28205002,-28146828,-27623316,-27950115,-30310371,-30331505,-30646999,-31506498,-31385330,-30200937,-30628384,-29875465,-28488735,-28333242,-27002041,-26377678,-26078762,-25279560,-29658867,-28592409,-27993046,-26793453,-25472429,-24338877,-23521774,-22674374,-21517420,-20680285,-19447760,-16800295,-15901087,-14376664,-13540958,-12580347,-11925798,-11655073,-11014011,-10515902,-10129560,-9547553,-9220522,-8828796,-8551229,-8243161,-8253013,-8242144,-8406047,-8319627,-8184097,-8395276,-8526673,-8313691,-7848947,-7289200,-7383533,-7226314,-7051054,-6589270,-5965809,-5316952,-4294216,-3430185,-2887289,-2811097,-2989532,-3084388,-3037443,-3129356,-3271532,-3490243,-3690817,-4197622,-4597116,-5366414,-6118281,-7207417,-8379594,-9353570,-10072734,-10551142,-11316522,-12246234,-12893106,-13601256,-14409051,-15172829,-15809084,-16310333,-16824863,-17237473,-17545134,-17704849,-17966141,-17948135,-17957317,-18065153,-18076052,-18062613,-18036667,-18071362,-18149981,-18186539,-18444336,-18747711,-19564644,-19525208,-23629272,-18444851,-15905855,-18056385,-17639168,-17601597,-18295004,-19677687,-20743509,-21686413,-22134201,-22342260,-22704393,-23123356,-26384731,-23351765,-23923471,-23695908,-20383396,-19624895,-21280411,-19590433,-19492237,-18543238,-18143200,-15363817,-12769771,-15562590,-15628790,-15830690,-17705299,-18370335,-19506899,-21018515,-22880722,-24989082,-27254213,-29243517,-30450138,-32255207,-33684032,-35407124,-37170319,-38318417,-38183739,-37813698,-36972668,-35596928,-35415962,-34729683,-33730633,-31743185,-28664591,-25291576,-22731098,-20293325,-16249170,-13178786,-8971712,-6468297,-3940303,873583,2400514,7271626,7802341,9521830,12809827,14948366,16241014,15828630,15265963,16432877,14898501},
{-30149969,-29926678,-28189337,-28114035,-27514566,-27650908,-29983828,-29982630,-30205641,-30836884,-30757717,-29818554,-30063622,-29187988,-28089029,-27756008,-26047274,-25431484,-25179312,-25367256,-29257730,-28080181,-27613489,-26663998,-24997801,-23888325,-23033560,-22177835,-21078505,-19825033,-18666061,-16664526,-15241806,-13536007,-12820322,-12093513,-11894951,-11216187,-10488160,-10223842,-9747302,-9293912,-9080107,-8400878,-8128429,-7821609,-7799146,-7824304,-8342381,-7864885,-7833064,-7619171,-8130544,-7755742,-7530660,-6936983,-6944160,-6847590,-6709586,-6142744,-5546191,-5024539,-3914131,-2689556,-2780983,-2514653,-2812275,-3005670,-3036983,-3254805,-3465715,-3767758,-4007880,-4320647,-4919604,-5814459,-6850659,-7829478,-8964347,-9946046,-11071181,-11570930,-11903723,-12615899,-13175301,-13776229,-14111440,-14883612,-15412160,-15888659,-16290272,-16536955,-16769228,-16741840,-16742573,-16639771,-16496424,-16376564,-16262041,-16323183,-16311642,-16012272,-15980061,-15955994,-16333803,-16609722,-17228556,-19693939,-17786251,-14020287,-13151493,-14706666,-15039323,-15530385,-17039085,-18530804,-20236559,-20561676,-20995264,-22352676,-22668833,-24465454,-24231480,-22536425,-23891970,-24701405,-23965736,-22731638,-23026976,-22326590,-21170855,-19860209,-18952112,-17881039,-16951094,-17190969,-16633213,-16893965,-17646082,-18672501,-19795429,-22154509,-23720154,-26144264,-28864525,-30452028,-31176645,-32921383,-34879612,-36225925,-38910950,-39228107,-39967125,-38951183,-38735123,-36915321,-36254131,-35693909,-34161438,-31598530,-28502342,-25641701,-22897749,-19690863,-15869437,-12751854,-8385787,-6750416,-3963529,1307499,2297043,7120770,8663054,9795033,12885118,14972964,16362427,15976754,15361041,16468199,14898501},
{-30149969,-29913445,-28173725,-28084509,-27429815,-27379036,-29674664,-29666578,-29794252,-30166700,-30174093,-29594946,-29657518,-28543573,-27666849,-27133167,-25180145,-24486313,-24236723,-25455191,-28488636,-27641850,-27114960,-26230633,-24662220,-23394388,-22654985,-21703379,-20658964,-19371611,-18416805,-16111338,-14673444,-13286478,-12259130,-11736845,-11715593,-10775165,-9978985,-10164290,-9276399,-9126975,-8681088,-7921537,-7694491,-7153317,-7360703,-7539044,-8067027,-7639115,-7588100,-7458888,-7599923,-6883502,-7321805,-6398559,-6600989,-6445344,-6335469,-5870891,-5237012,-4632997,-3844181,-2515909,-1687027,-2271026,-2593059,-2846832,-2981392,-3248689,-3734602,-3935998,-4366493,-4701986,-5163611,-6248189,-7242381,-8265188,-9189774,-10292887,-11293965,-11974135,-12849529,-12793565,-13536870,-13975257,-14427118,-14700662,-15046445,-15362744,-15613566,-15816404,-15869523,-15732091,-15538410,-15259356,-15069160,-14744577,-14604861,-14765262,-14540245,-14094045,-14017700,-13987151,-14466502,-14832711,-15321876,-19001741,-13861716,-13003798,-11607114,-12597446,-13266914,-14452236,-15706120,-17075674,-18419207,-20322262,-20918526,-21455942,-24026037,-24546154,-25489729,-24842068,-26102619,-26563732,-26707487,-25376400,-24540606,-23879475,-22837353,-20993216,-19255798,-18957573,-19902163,-19540773,-19081844,-18871719,-18238337,-20029902,-21475262,-22949041,-24440767,-27675652,-30130835,-31161354,-32101036,-33566517,-35698013,-37980499,-40076931,-40701481,-41249474,-40472290,-39941132,-38099182,-36942379,-36362514,-34927429,-31090487,-28355156,-25485285,-22378139,-17986805,-15363554,-12125500,-7876592,-7019445,-3999150,1331113,2391321,6884188,9533127,10081148,13018212,15007053,16456966,16135059,15464531,16502691,14898501},
{-30149969,-29898689,-28157614,-28057810,-27367880,-27157305,-29390417,-29387949,-29410635,-29511349,-29629572,-29479431,-29388216,-27963900,-27206673,-26447750,-24339405,-23582886,-23472145,-25325899,-27569689,-27045940,-26531086,-25661394,-24281031,-23062418,-22296432,-21244610,-20237322,-18638535,-17237076,-15701300,-14458123,-12877457,-12087233,-11452570,-11024412,-10168651,-9688544,-9663149,-9126657,-8721958,-8076221,-7406854,-7155824,-6869921,-6742741,-7403992,-7470181,-7583456,-7301855,-7228337,-7198303,-6646601,-6581143,-5951597,-6246142,-6130952,-6099350,-5586885,-4919888,-4097621,-3338168,-2633843,-1520735,-2010383,-2254760,-2668160,-2973414,-3164706,-3820813,-4225494,-4838925,-5356456,-5623273,-6599908,-7457250,-8359319,-9372120,-10345081,-11653454,-12160149,-13115134,-13104812,-13625359,-13833082,-14343543,-14419529,-14616259,-14753389,-14887528,-14917614,-14778884,-14658256,-14237302,-13905796,-13575760,-13176653,-12957261,-12992451,-12931956,-12393469,-12081975,-12184815,-12516819,-12961255,-14258912,-14831533,-8595041,-11550788,-9976827,-10807992,-12056798,-13510481,-14693325,-15159896,-19098417,-21146988,-23135611,-23626915,-23979126,-24361685,-25977598,-26835934,-27900999,-27696789,-27967310,-27287218,-25780674,-24891932,-24220274,-22409346,-20893898,-21137787,-23340933,-21617290,-20796339,-21018093,-20636147,-21442558,-23009565,-24368166,-26811459,-28052700,-30367781,-31941883,-33173481,-34608654,-36580563,-39389130,-40967289,-41513950,-42085526,-41968121,-41396671,-39088745,-37531284,-36598263,-35475613,-31300062,-27588137,-24775475,-20984095,-17475025,-14642402,-11611962,-7579312,-6993001,-3950920,699462,2774472,6764291,10037344,10352392,13236403,15045623,16549456,16285551,15576236,16535645,14898501},
{-30149969,-29882406,-28139753,-28031767,-27331560,-26952311,-29132488,-29163971,-29052780,-28878424,-29097055,-29413778,-29213034,-27451523,-26696415,-25770103,-23516985,-22718912,-22759916,-23933521,-26720949,-26376732,-25855871,-25098337,-23738386,-22641394,-21747612,-20669968,-19706200,-18019184,-16604004,-15556267,-13868123,-12397698,-11930593,-10966272,-10278007,-9661494,-9422296,-8890873,-8381522,-7999218,-7650060,-7036697,-6287699,-6624772,-6160031,-7060033,-7301388,-6893780,-6902537,-6778121,-6827351,-6068595,-5877091,-5956623,-5991985,-5936854,-5772288,-5193721,-4430573,-3857635,-3166710,-2274513,-1374157,-1432052,-1865018,-2370118,-2794613,-3322877,-3961288,-4360509,-5032722,-5436712,-5551571,-6386688,-7507805,-8628160,-9581051,-10528772,-11769705,-12355854,-12914928,-13291758,-13702344,-14124100,-14129690,-14173804,-14131717,-14123458,-14115036,-14144381,-13684728,-13538916,-13049679,-12559422,-12114662,-11723741,-11492535,-11429243,-11452200,-11231755,-10409768,-10605456,-10788976,-11044602,-14184223,-8512064,-8904232,-7761035,-7468902,-9653110,-12433792,-13187222,-13400319,-16674173,-19655844,-22266102,-24504499,-23964832,-23226818,-23801615,-26526503,-29791233,-28949083,-27802225,-28932621,-27975061,-26283676,-25952843,-24826471,-23321733,-22457386,-23763561,-24757090,-22537334,-22050631,-22160719,-21967134,-21245403,-23725113,-26636982,-30014986,-29456448,-30841375,-32747055,-34029182,-36077545,-38090984,-40560059,-41928848,-42535072,-42748253,-43159073,-42575180,-39875908,-38012913,-36542618,-35514713,-31524446,-27399710,-24095819,-19971537,-16581818,-13689498,-10753992,-7287399,-6663451,-3950563,129764,3500529,6873846,10453274,10677365,13395803,15083419,16660553,16417931,15699031,16566227,14898501},
{-30149969,-29864817,-28119968,-28005363,-27327635,-26788090,-28889156,-28988869,-28743366,-28259729,-28558043,-29300367,-29058878,-26996685,-26184076,-25110046,-22697710,-21957672,-22180830,-23247946,-26723036,-25894150,-25200270,-24617647,-23250311,-22241453,-21178535,-20016659,-19276674,-17733988,-16228762,-15059155,-13626826,-12255356,-11594931,-8746001,-9598443,-9493408,-9067652,-8110032,-8045026,-7255116,-7276693,-6662833,-5474341,-6007144,-5622541,-6007949,-7225086,-6703876,-6354944,-6304138,-5891567,-5490722,-5226532,-5643987,-5707456,-5716690,-5435944,-4784212,-4051787,-3272783,-2833703,-2048291,-1770025,-761850,-1461199,-2039572,-2644900,-3256526,-3839372,-4605402,-5119483,-5741028,-5859896,-6721453,-7402766,-8641082,-9703678,-10770588,-11817550,-12419125,-12923603,-13189103,-13529999,-14005329,-13978562,-13899236,-13721361,-13471133,-13366031,-13243366,-12745248,-12458567,-11841625,-11388751,-10846258,-10380932,-10120525,-10255054,-10194379,-9986985,-9155625,-8825327,-8936787,-9863651,-12568712,-4858782,-6410487,-5686621,-5648032,-9362201,-14010910,-15346747,-17836237,-19779346,-23555353,-25278683,-26281069,-25230232,-23553139,-24329605,-27752487,-30072224,-28946547,-26528826,-28442680,-28739824,-26911497,-26482370,-25906252,-24328922,-23598566,-25852716,-25255424,-23765759,-23421234,-23577974,-23479166,-23308096,-24889244,-28540058,-30851057,-31450254,-32032345,-33818756,-34990002,-37730789,-39793613,-41742085,-42836208,-43785133,-43599327,-43951710,-43285072,-40508446,-38644077,-36663540,-35373505,-31707148,-27651264,-23207504,-18904526,-15304680,-12701591,-9775401,-6645117,-6312381,-3886567,331191,4174286,7260977,10762540,11018455,13432685,15202355,16768726,16529434,15836371,16593697,14898501},
{-30149969,-29846296,-28098907,-27979229,-27337631,-26675219,-28671740,-28864071,-28473541,-27656515,-27995377,-29053722,-28829487,-26557274,-25689043,-24500504,-21962843,-21346523,-21772951,-22804455,-27119225,-25767025,-24621502,-24031242,-22727415,-21797699,-20549015,-19421116,-18644966,-17404728,-15916710,-14340554,-13143435,-12318352,-11302588,-10091358,-8768766,-8941390,-8550439,-7631508,-7472661,-6778546,-6749427,-6032142,-5521030,-5350613,-5525990,-5556995,-5858917,-4918183,-5548209,-5445295,-5230493,-4820580,-4849003,-5344776,-5477026,-5569117,-5254942,-4511910,-3707306,-3080457,-2374051,-1634045,-1237855,-728938,-1241438,-1974120,-2464197,-3039603,-3890493,-4668671,-5150113,-5815852,-5863678,-6568642,-7469318,-8591434,-9773616,-10757091,-11694397,-12469186,-12810904,-13250010,-13681033,-13880571,-13857655,-13622642,-13293411,-12877337,-12585948,-12380871,-11265388,-11362627,-10765984,-10192775,-9674614,-9105149,-8796551,-8787186,-8894909,-8794288,-8625112,-7725595,-7636252,-9409431,-7175261,-3373000,-4408062,-3896512,-5418147,-12341980,-15381302,-17398497,-19935040,-22320242,-24438446,-26282278,-27686695,-27182219,-26656120,-27036564,-28312740,-29455412,-27188406,-27104109,-27915447,-28728920,-28460636,-27692877,-26498350,-25755842,-24700499,-26282803,-25715300,-24500502,-25207369,-24932669,-24761507,-25075464,-26555616,-29773401,-31902452,-33057400,-34376904,-34928802,-36627567,-39167156,-41093746,-43178490,-44105721,-44775799,-44946205,-44522041,-43424034,-40698193,-38885391,-36588898,-34877769,-31665731,-27526052,-22565075,-18041641,-14558048,-11855567,-8914804,-6150248,-5685486,-3559083,623740,4768364,7713411,11031818,11381454,13407631,15338361,16834513,16623798,15989290,16617569,14898501},
{-30149969,-29827257,-28076609,-27950703,-27377796,-26620073,-28482676,-28770523,-28242407,-27076435,-27394716,-28598593,-28418434,-26093555,-25185907,-23937656,-21316463,-20918039,-21514097,-23019083,-27316132,-25490891,-24035526,-23146656,-21906677,-21194399,-19923759,-18746159,-17660942,-16337500,-15220918,-13840259,-12762369,-11513551,-10646532,-9692643,-8529168,-8283395,-8091579,-7472035,-6905936,-6531307,-6703278,-5835149,-5273126,-4583640,-4582690,-5131668,-4927221,-4225566,-4525587,-4543242,-4378468,-4712983,-4651278,-4731070,-5196341,-5023343,-4849115,-4170425,-3362942,-2681732,-1916348,-1382835,-402115,-941052,-1020756,-1606012,-2200668,-2793515,-3760323,-4403447,-5206985,-5676153,-5992328,-6674900,-7468923,-8572748,-9708502,-10707828,-11601612,-12319646,-12949850,-13404275,-13767269,-13855869,-13703700,-13338308,-12900796,-12351378,-11856873,-11439068,-10249887,-10359692,-9635924,-9174922,-8556425,-7962555,-7399903,-7313302,-7473570,-7442205,-7230565,-7056934,-6824465,-9122673,-2468146,-248118,-4803268,-6527646,-10413255,-15494555,-19171530,-21383125,-22894760,-21806276,-22489119,-25128548,-27740549,-28548506,-27592253,-27042864,-27667461,-27884466,-27156023,-27043703,-28775829,-29659702,-29694616,-29767067,-27518465,-27104120,-25157434,-25905943,-25870298,-25205902,-26031759,-25948137,-26780712,-26853748,-28234699,-30608200,-32598022,-33963764,-35806618,-36938053,-38239769,-40516254,-42458797,-44774395,-45349903,-46263802,-46066200,-44800156,-42792496,-40867298,-38538292,-36370522,-34330612,-31473753,-27231020,-22061825,-17719450,-14362100,-11806133,-8473402,-5899897,-4500218,-2706591,623150,5390710,8315723,11169934,11797154,13470059,15458515,16862885,16694180,16155495,16637705,14898501},
{-30149969,-29808010,-28052250,-27917170,-27443668,-26625147,-28322584,-28714724,-28045893,-26534296,-26746571,-27893629,-27763416,-25586456,-24705359,-23386450,-20728300,-20656107,-21251951,-23118587,-27429562,-25204159,-23257116,-22022465,-20942060,-20313284,-19278591,-17950939,-16881002,-15728393,-14134315,-13175150,-12066726,-11221522,-10677246,-9638896,-8971730,-8202541,-8036976,-7373806,-6792524,-6497813,-6303451,-5638230,-4632358,-4008152,-4195369,-4855491,-4899149,-3555803,-3620334,-3877288,-3713429,-4032376,-4253028,-4370009,-4675298,-4690382,-4380430,-3640936,-2906978,-2132694,-1420272,-918881,-131182,-370490,-513761,-1179141,-1847437,-2633181,-3478015,-4396610,-5053576,-5654022,-6297243,-6547445,-7695736,-8604192,-9447825,-10480324,-11386118,-12377077,-12941315,-13497408,-13720607,-13703387,-13525643,-13052700,-12365285,-11824655,-11167499,-10617594,-9308548,-8965130,-8743992,-8021264,-7449906,-6967588,-6347105,-5909895,-5892191,-5970243,-5919187,-5753375,-6354919,-9279147,-3374723,-4715914,-10801348,-12981135,-15424237,-18930521,-23484667,-25619034,-27775747,-27040333,-26974962,-27878355,-27020350,-27958588,-28588066,-27604416,-26587200,-26494150,-28368042,-29949697,-29569983,-30106697,-31225267,-31239973,-29863501,-27276133,-27769678,-26840965,-26292362,-26191532,-26429251,-26837831,-27101641,-27657721,-29014492,-31019072,-32543385,-34349960,-36801151,-38663761,-39482590,-41670452,-43903915,-46198414,-46527721,-47171230,-46658794,-44848370,-42440941,-40482094,-37717255,-35900780,-33992405,-31318495,-26573498,-20914480,-17741961,-13778259,-11228488,-7787096,-5615234,-3298980,-1756847,795151,6152054,8548566,11282693,12211990,13657804,15575468,16861759,16723055,16329735,16654316,14898501},
{-30149969,-29788692,-28025194,-27880205,-27530138,-26666533,-28196655,-28669132,-27860439,-26045319,-26077387,-26962608,-26856577,-25026466,-24215893,-22891262,-20241968,-20493437,-21074892,-22125015,-25407372,-25199739,-22249554,-21430199,-20071724,-19282862,-18322971,-17351463,-16341713,-15157694,-13813814,-12503136,-10518873,-11093726,-11035400,-10714396,-9181802,-8304708,-7652513,-7295161,-6530604,-6195499,-5644113,-4917922,-3909910,-3715204,-3959958,-4140974,-4084750,-3068578,-3001814,-3304216,-3086534,-3236883,-4011961,-3619577,-4201927,-4246900,-3930925,-3082095,-2424255,-1631995,-900068,-338214,-380890,188192,-64516,-799101,-1501652,-2153504,-3059082,-3976234,-4592443,-5589672,-6272008,-6806905,-7574055,-8385391,-9418909,-10439407,-11141891,-12247259,-12800089,-13272148,-13464168,-13494761,-13153749,-12650092,-11912858,-11308002,-10519499,-10026396,-8455224,-7698182,-7887762,-6880272,-6339546,-5768338,-5171420,-4600653,-4411184,-4447114,-4497312,-4812332,-6223837,-10919303,-8070203,-8686274,-11150294,-13391071,-18941034,-21772945,-25341597,-28734514,-31226982,-32316761,-32396259,-30728996,-27736664,-27290880,-28443815,-28285809,-27422617,-27559381,-29252827,-32187588,-29641645,-30308420,-32108105,-32514576,-31822617,-30588606,-29362614,-28988045,-27621565,-26846811,-26557968,-27364363,-28182970,-29058409,-29811102,-31573967,-32760815,-35400600,-37731907,-39711800,-40721809,-42942806,-45074024,-47714085,-47721714,-48086994,-47525356,-44812885,-41791206,-39778763,-36774288,-34868992,-33543381,-30959637,-25794870,-19487198,-16359253,-12202540,-10304274,-7130469,-5215991,-2745979,-1419431,1385356,6706361,8845389,11497396,12563121,13929416,15653419,16840000,16717518,16503727,16667873,14898501},
{-30149969,-29769232,-27995529,-27839134,-27636038,-26754564,-28088411,-28619040,-27693592,-25620846,-25403522,-25845520,-25751081,-24420900,-23720924,-22395752,-19806135,-20319487,-20688980,-20316069,-22062145,-22727983,-22030046,-20824797,-19476395,-18024744,-17301584,-16685867,-15655654,-14404180,-13438814,-12110470,-10689177,-10598926,-10879065,-10552354,-8709542,-7918543,-7436190,-6859027,-6211796,-5683289,-4913718,-4384115,-3588590,-3369564,-3427595,-3389673,-3563916,-2394815,-2383751,-2752656,-2626190,-2862842,-3279471,-3240597,-3625296,-3412372,-2651299,-2294761,-1587742,-929954,-290720,-46857,67835,277425,159498,-446715,-1041932,-1720152,-2803786,-3602051,-4745903,-5490358,-6330813,-6838947,-7511769,-8324145,-9184326,-9938155,-11057825,-11799941,-12593086,-13008140,-13184771,-13172089,-12676481,-12107068,-11310733,-10609306,-9873142,-8843960,-7303988,-6589192,-6538943,-5848488,-5112914,-4465847,-3904541,-3425618,-3153350,-3017482,-3204515,-4047582,-9217011,-4887823,-6974048,-6885369,-12546689,-13279956,-16922562,-21025583,-24140528,-27363142,-30618187,-32136490,-31157093,-30147921,-27024210,-26648737,-28555880,-28841543,-26820145,-27403200,-28303545,-31162151,-28683008,-29774185,-32363377,-33149063,-32799530,-31493437,-28128609,-29564253,-28551416,-27589890,-26959707,-28665306,-28908285,-30439035,-30869963,-32336040,-33866344,-36399128,-38607197,-40581131,-41791805,-44555885,-46138557,-48812614,-48825836,-48496071,-47497200,-44721668,-40808228,-38922729,-36196827,-33783997,-32690586,-30229044,-25212080,-19049166,-16298269,-11538056,-9542624,-6565442,-4656474,-2851851,-1730312,2138806,7758396,9361556,11847549,12878082,14188114,15768725,16816538,16711378,16666636,16678967,14898501},
{-30149969,-29749424,-27963404,-27790659,-27747101,-26880543,-28001335,-28568663,-27538162,-25245092,-24762360,-24634428,-24533869,-23816664,-23229832,-21868692,-19317837,-20028860,-19707207,-18767431,-21233438,-21315704,-21099789,-20036892,-19223566,-15279926,-16721848,-15718671,-14871595,-14044977,-12638743,-11078761,-10550701,-9962477,-9861700,-9568862,-8335114,-7758355,-7165609,-6465581,-5731970,-4975058,-4081656,-3745690,-3008395,-2911978,-2941849,-2858045,-2596499,-1984070,-1779970,-2196345,-2228852,-2667285,-2892244,-2795890,-3123655,-2862699,-2176410,-1487408,-794376,190516,157072,554119,332878,626300,485565,-26005,-684582,-1375985,-2461417,-3266289,-4381082,-5404887,-6233291,-6592908,-7336937,-7964824,-8988068,-9900902,-10820909,-11826750,-12258271,-12618515,-12733192,-12636220,-12135401,-11385930,-10510861,-9674767,-8787051,-7410389,-6232177,-5411917,-5489734,-4868756,-4042328,-3199804,-2674692,-2041377,-1859100,-1702317,-1884010,-4107194,-7637381,-4932743,-2374006,-4345486,-10594543,-11401921,-15627130,-20312016,-23899563,-26395542,-28273285,-30288208,-29272566,-28779245,-25853027,-25996700,-28282871,-27630756,-26782770,-27076385,-27473665,-29494537,-28991236,-29374369,-32044464,-33159817,-32467270,-32340923,-31890610,-30480423,-29068527,-27669312,-27669758,-29299971,-30559414,-31594128,-32282413,-33758045,-35150764,-37584866,-39523872,-41460674,-42857143,-45949448,-46889275,-48972500,-49242714,-48839775,-47767490,-44715710,-40453873,-38049606,-35992458,-33214783,-31351654,-29221773,-25004946,-20264244,-16560575,-11262158,-9263515,-6506834,-3858357,-3027518,-1762750,3098796,8946178,10002791,12165489,13162897,14362148,15904928,16787233,16724421,16808044,16688164,14898501},
{-30149969,-29729021,-27928623,-27736006,-27865070,-27048824,-27925962,-28511564,-27369080,-24945278,-24182655,-23452686,-23323059,-23251291,-22727049,-21256798,-18801231,-19575998,-18936134,-17743576,-21627920,-20176435,-19932930,-19434946,-18574800,-17435747,-16404331,-15180726,-14357247,-13342613,-12033237,-11223251,-9801477,-9305247,-9214628,-8391850,-7263138,-7185459,-6572911,-5894181,-5138554,-4115070,-3325276,-2953853,-2431582,-2262686,-2355517,-2233747,-1773586,-1583033,-1279952,-1821153,-2017709,-2649988,-2832844,-2755872,-2585075,-2172995,-1349314,-765647,224644,503617,690059,924955,886983,933791,742372,389463,-427090,-1301295,-2415869,-3173806,-4134640,-5042645,-5963284,-6423584,-6913294,-7558290,-8644613,-9642342,-10506354,-11159059,-11716964,-12141522,-12183937,-11965558,-11381313,-10606981,-9577888,-9426588,-8229117,-6053877,-4855447,-4236682,-4046923,-3925694,-3092002,-2128790,-1362109,-873708,-529207,-362712,-796093,-6399399,-3678356,1276515,-1466533,-3725484,-10051151,-11262073,-13115160,-14118327,-17422701,-26684618,-28037022,-28183943,-28426645,-29111719,-25691099,-25530773,-27995485,-28050169,-26649612,-26918434,-26728842,-28103426,-28584585,-30007597,-31587572,-33063217,-32930382,-33351219,-31877104,-30917498,-30259638,-30850334,-27325356,-28458506,-31299431,-33110584,-33587002,-34807346,-36345749,-38607296,-40305771,-42359398,-43994015,-46474277,-47446754,-48685902,-48895454,-48765991,-47733860,-44346249,-39875042,-37530186,-35925842,-32446033,-29908781,-28219000,-25160950,-21028746,-16828981,-10803093,-9244116,-5608065,-2759093,-2869597,-1688993,3587370,9672359,10157519,12419018,13532445,14535588,16055883,16759914,16757874,16921734,16695923,14898501},
{-30149969,-29707855,-27891314,-27675646,-27980839,-27268829,-27851906,-28423445,-27219276,-24725061,-23713339,-22401972,-22234737,-22760742,-22204586,-20572159,-18244053,-19021065,-18593740,-17148211,-21720112,-17481001,-18880875,-18551989,-17446449,-15617257,-14956602,-14454947,-13786617,-12692766,-11198153,-10713199,-8888063,-9237828,-8992496,-7171943,-6405404,-6443379,-5896829,-5086743,-4111964,-3064853,-2137853,-1920466,-2188863,-1704564,-1755081,-1571113,-1446340,-996404,-991956,-1503188,-1870619,-2394129,-2774141,-2381291,-2101267,-1784982,-1020665,-165725,616328,1227791,1372108,1143095,1449666,1915856,977548,435385,-80700,-916717,-1834602,-2717838,-3571937,-4628410,-5508680,-6120962,-6356967,-7181597,-8263406,-9133232,-10001924,-10645280,-11126634,-11401217,-11470958,-11097548,-10452413,-9396290,-8932340,-4750004,-6481488,-4721927,-3864647,-3092021,-2864402,-2542902,-1964293,-1002082,-233785,189151,599560,871757,-533257,-4975887,-2961090,3507940,-3639907,-5780997,-7733411,-10028755,-11907527,-13432888,-16273544,-25352827,-28410419,-27212111,-28403023,-28480976,-25371979,-25297483,-27717928,-28089169,-27224691,-27281586,-27402496,-27761709,-28774113,-30484282,-30560221,-32667427,-33288212,-33567188,-32877327,-32287655,-32734722,-31348459,-29957724,-30986523,-30182953,-34121803,-34396561,-35661366,-37466763,-39604282,-41554409,-43345119,-44975586,-46893391,-47755703,-48483253,-47961330,-48038937,-47441772,-43858879,-39511181,-37344738,-35897343,-31650095,-29424622,-27698986,-25372246,-21082159,-16869173,-11427361,-9079418,-4539299,-2038506,-2286037,-1544776,4284242,9525852,9593130,12686571,13985734,14749882,16160889,16736206,16819220,17005503,16702553,14898501},
{-30149969,-29685923,-27852266,-27604336,-28087271,-27372257,-27794043,-28329811,-27078455,-24590120,-23365789,-21598063,-21356325,-22347271,-21685059,-19810860,-17638288,-18383467,-18415964,-16564610,-21374313,-16780918,-17712681,-17319162,-16052877,-15013173,-14114628,-13442088,-12907152,-12084799,-11232069,-9990303,-8236575,-8414013,-7664433,-6281854,-5747817,-5829606,-5182838,-4239908,-3156971,-2306270,-709758,-1144075,-1257544,-880836,-1110873,-937601,-864314,-690379,-840339,-1138894,-1624306,-2117346,-2466488,-2107249,-1984236,-1367250,-825670,-93325,1004122,1700479,1689775,1679665,1319490,1833587,1569568,854542,310981,-536065,-1366566,-2250575,-3194149,-4170606,-5059155,-5494740,-5902206,-6845915,-7816434,-8522738,-9186808,-9878428,-10149999,-10589444,-10314454,-10062223,-9319370,-8181509,-7926459,-4005452,-4059136,-3632410,-2832065,-2157090,-1533816,-1330447,-566033,150876,1069372,1627108,1638508,1949137,-2027846,-2925225,611573,2377845,-2432610,-4717461,-6706522,-9104589,-10832535,-13718997,-15197154,-19494289,-27653063,-26602634,-27260778,-27053951,-25828737,-24716766,-27437874,-28575159,-27200676,-27951891,-27134245,-28253883,-29058216,-29353746,-30441919,-31903620,-33226212,-33365139,-33369728,-34125637,-35434345,-33583019,-30952496,-31934172,-32660702,-35314396,-34846207,-36643101,-38700722,-40695156,-42590046,-44564598,-46460098,-47344074,-48050110,-48140217,-46777271,-46835400,-46566181,-43732147,-39708473,-36973705,-35502316,-31294600,-29615969,-27834078,-25593794,-20709061,-15852915,-11494621,-9116452,-3649520,-1634551,-1565707,-1222691,4536913,8653416,9764585,12897015,14474040,14883564,16204765,16743963,16913078,17056173,16708248,14898501},
{-30149969,-29663397,-27811897,-27520399,-28173349,-27541544,-27747051,-28224995,-26866274,-24526939,-23141840,-21095102,-20749739,-21993927,-21157148,-19028721,-17045759,-17819393,-17907188,-16166523,-20253431,-17084732,-16822023,-16378611,-15591531,-14615597,-13393558,-12753676,-12326222,-11589143,-10255532,-9069756,-8026128,-7756345,-7111523,-5466256,-5255208,-5266632,-4675353,-3378008,-2512928,-1551324,-1004760,-445908,-364290,-131303,-112493,-84372,-215447,-49322,-613260,-759892,-1426795,-1725273,-2023482,-2000133,-1520287,-1023783,-422421,332309,1071255,1791893,2211746,2116068,1619938,2172221,1946242,1399332,798278,129803,-964367,-1807613,-2728688,-3477167,-4329176,-5101747,-5516855,-6168279,-6900239,-7632091,-8303990,-8886618,-9197176,-9389374,-9182127,-8924354,-8154923,-7107273,-6459952,-3568911,-3588305,-2823703,-2050367,-830260,-423597,255207,814290,1584103,2361100,2950318,3082358,2709481,-4230617,-1374635,1977733,2120722,-1418984,-3642028,-6093163,-7311967,-10145267,-12554883,-14694945,-15541825,-24705711,-27995974,-26283216,-25966589,-27213940,-25071037,-27754208,-29149996,-27797306,-29164211,-28397114,-28637794,-29075476,-29000284,-30246422,-32427917,-32758850,-32934147,-33391060,-34692963,-36669319,-35744328,-32017548,-32465084,-34762184,-36214924,-36185181,-37576912,-40638458,-41933495,-43787903,-45597401,-47529373,-47881748,-48421406,-47915863,-45914536,-46114994,-45614487,-43243279,-39300346,-36726707,-34627800,-31247595,-30041128,-27627087,-25583040,-20022875,-14434488,-10669028,-9040903,-2956468,-1456616,-551733,-528034,5473559,7449573,10218418,13166779,15296259,14948372,16212259,16801052,17021011,17066269,16713142,14898501},
{-30149969,-29640602,-27769150,-27425323,-28234777,-27739594,-27700684,-28092205,-26735807,-24537819,-23079145,-20852575,-20395573,-21638626,-20607393,-18293776,-16547012,-17321659,-17429203,-15614233,-17975521,-16089991,-16245361,-15506227,-14803788,-13828623,-12828076,-12231473,-11849139,-10945645,-9523770,-8675260,-7627862,-7071985,-6644006,-5081596,-4844256,-4456452,-3851431,-2777618,-1902731,-1051187,-543886,194238,179714,632919,949785,1055210,787866,312288,-255272,-312732,-940206,-1510177,-1558615,-1616304,-1048389,-549908,-75232,729373,1343478,1907455,2718433,2946873,2638198,2819014,2449947,1870737,1310895,489614,-362626,-1358449,-2196038,-2971345,-3794706,-4539645,-4959054,-5478235,-6139657,-6636508,-7266578,-7930746,-8137415,-8092983,-7929394,-7448533,-6835659,-5813447,-4943654,-3061663,-2597181,-1819432,-945362,545626,1312278,1652406,2706918,3329155,3903945,4418628,4532192,1763026,-2083484,-706185,4240847,2613386,-2731889,-5483291,-7708697,-6963945,-9007762,-11738348,-13669097,-16324001,-20598057,-27976978,-25854195,-26139435,-30065022,-29091581,-27998600,-29595249,-28438696,-30065451,-28330921,-28316584,-29321432,-29907290,-31235641,-32362904,-32666222,-32918026,-33918869,-35367378,-36261677,-36682442,-34168709,-36168476,-35835186,-37434216,-37820763,-39270214,-41497910,-43148300,-44837460,-45982887,-47312141,-48276505,-48647106,-47738365,-46222004,-45648384,-44605831,-42528591,-39179543,-36576981,-34063763,-31768383,-30820499,-27981760,-25493713,-19452963,-13297893,-10369582,-8702253,-2032323,-1342843,1084122,779041,4724747,6979166,10404994,13567743,15946079,15092805,16224686,16866926,17112783,17029268,16717381,14898501},
{-30149969,-29617901,-27722376,-27315355,-28274817,-27921719,-27655697,-27947130,-26636673,-24616997,-23143213,-20811089,-20329039,-21228125,-20027918,-17633650,-16165369,-16871792,-16919170,-15348491,-15383439,-15191621,-15490696,-14409467,-13926974,-12865463,-12205636,-11674647,-11053546,-9670275,-8844257,-8108283,-6698240,-6643587,-5928946,-4741772,-4255565,-3787885,-2808105,-1846466,-928563,-507684,110402,630704,1027329,1343012,1860642,1914780,1658040,583130,250413,24860,-491710,-544736,-1021887,-631208,-381199,4085,323384,1002317,1781852,2438165,2925786,3422868,3013574,2938407,2839926,2395273,1792500,1021490,154863,-918474,-1664713,-2470784,-3297414,-4182389,-4561226,-4679407,-5335423,-5827210,-6289380,-6664907,-6778475,-6552430,-6233062,-5863837,-5083127,-4207082,-3442131,-2218258,-1509157,-698718,98604,1069167,2747777,3835473,4299074,5033480,5317621,5990836,4314813,-278566,-517969,4096941,5482801,4995996,-1091605,-7877851,-10987413,-12237796,-13229880,-11094903,-13685431,-17909014,-22769119,-25727814,-25233341,-26977560,-31631556,-29059088,-27983688,-28640619,-28536842,-30108244,-29012981,-28451897,-29698500,-30680677,-32155960,-33379017,-33974186,-34206322,-34384468,-35109196,-36381718,-37662983,-35631516,-36714382,-36920113,-37689537,-38833023,-39794968,-42405674,-44128483,-45582848,-46504417,-47398109,-48113960,-48126305,-47673054,-46856037,-45420216,-43869869,-41778305,-38604191,-36552135,-34013794,-32190506,-30796301,-27752426,-24816324,-18768650,-12549060,-10263165,-8136521,-829301,-1406044,2961587,2169483,4906692,6692687,10254692,13815403,16392933,15318634,16263517,16922987,17170776,16950691,16721132,14898501},
{-30149969,-29595591,-27671429,-27189034,-28283104,-28088495,-27604965,-27799089,-26579746,-24710768,-23320427,-20971350,-20467718,-20711472,-19407679,-17048203,-15818919,-16424522,-16114094,-15171924,-13408448,-14684792,-14528607,-13487643,-13146322,-11948180,-11672410,-11115896,-10317252,-9134735,-7900502,-6738477,-6123345,-5852772,-4779472,-4133544,-3664063,-3140424,-1921795,-1071006,-198411,331461,1013080,1331171,1941809,2281451,2632487,2708758,2477114,1114455,621010,680189,154249,151478,-394630,17904,269644,531786,860654,1584856,2298701,2755022,3463427,3743039,4361125,3610701,3650842,3051912,2425597,1430844,766597,38659,-982205,-1749578,-2641087,-3584346,-3946806,-3839279,-4278710,-4771255,-5084074,-5358997,-5269717,-4930991,-4459149,-3917699,-3279917,-2408813,-1575291,-1041561,-348833,575739,1280382,2257010,3643890,5480837,6057272,6841696,7339624,6459939,6301032,5705194,5471983,7259730,5485945,4313972,-485082,-8586174,-10736270,-12601752,-16328222,-17635649,-17697687,-19016060,-24351942,-24372252,-25647970,-28967026,-29092995,-27339058,-28260849,-28456079,-28076294,-30123178,-29969423,-29593035,-30155989,-31672869,-33704010,-34333878,-34678116,-34425514,-33726437,-34087940,-34568817,-36573982,-35549644,-37009933,-37215786,-38328915,-39329700,-39805645,-42472607,-44739777,-45799107,-46862289,-47392120,-47920105,-47867035,-47437859,-46510471,-45162434,-43401108,-41099606,-38222069,-35960060,-34183273,-31467537,-29679895,-27295279,-23778519,-18035046,-12362243,-10648992,-7295988,324929,-1299084,5012159,3768123,4879675,6735930,10389773,14235713,16658228,15549130,16330704,16936049,17202374,16853350,16724579,14898501},
{-30149969,-29573816,-27618116,-27050451,-28259136,-28232225,-27546494,-27657465,-26574535,-24852091,-23550905,-21383211,-20237965,-20085896,-18764891,-16547234,-15437252,-15914735,-15098162,-14794482,-12197881,-14070529,-13786802,-12803407,-12503068,-11132330,-10937931,-10562680,-9666985,-8301591,-7163300,-6084842,-5554590,-5144906,-3745921,-3262179,-3125368,-2144827,-1043594,-205540,482572,1461812,1704898,2181211,2619682,3217940,3382836,3350531,3308979,1895805,1298337,1099228,1194196,1004396,391457,1025199,1268353,1641201,1786759,2196453,2685094,3212497,4118546,4347505,4309646,4026310,3962709,3680353,3189425,2291811,1477743,729088,-135990,-973471,-1929564,-2685891,-3271155,-3367615,-3240099,-3615153,-3825270,-3820733,-3640783,-3162917,-2793672,-2294412,-1414204,-378538,338991,885873,816111,1980621,2980584,3808662,4635689,6344731,7662857,8600331,8861443,6575683,10587306,8384387,7973686,6838472,5730127,3302135,-851728,-7814498,-11776478,-13912259,-15081191,-19099472,-20014797,-22460529,-26177189,-26852297,-28129372,-26754581,-26299397,-27643749,-28842127,-29116419,-27444859,-30022402,-30200890,-30792866,-29674282,-31994257,-34476501,-34845108,-34291279,-33739376,-33987431,-33887287,-33687496,-34885433,-35450787,-36925110,-37544445,-38488758,-39765862,-40383511,-42364601,-45099701,-45649937,-46535225,-47495232,-47702061,-47315861,-46268127,-45207909,-44143375,-42658360,-40533661,-37630520,-35094425,-33877785,-31102758,-27699121,-25664391,-22709436,-17273602,-11399263,-8801592,-6450382,1672990,-870869,6073665,5617652,5032968,6813341,11041840,14819795,16888874,15724199,16418938,16915277,17231365,16768911,16727875,14898501},
{-30149969,-29552532,-27564190,-26897299,-28194977,-28342215,-27477478,-27520758,-26622726,-25060278,-23759459,-21909136,-20443323,-19372503,-18124695,-16119804,-14974215,-15217585,-14357535,-14050853,-11046299,-13046816,-12993710,-11954779,-11593604,-10406190,-10012994,-9593551,-8841020,-7781172,-6600299,-5502683,-4697743,-3889529,-2972126,-2424276,-1871717,-958701,7944,681795,1326298,1999320,2527187,3164319,4178823,4019753,4333821,4360408,3987681,2845217,2191708,2129360,2304703,2200410,2195132,2338023,2400337,2650593,2799217,3335932,3560979,3914696,4485476,5157504,5283126,4746615,4618968,4321673,4049683,3182502,2371412,1671063,963087,15693,-775315,-1484591,-2063617,-2210196,-2051794,-2095269,-2212298,-1968991,-1809096,-1675011,-994138,-277329,728625,1639612,2639855,3566655,2868025,3310441,4664326,5761011,6780909,7514909,8912771,10829984,11058705,10642527,14409526,9385292,7264910,5485557,3640196,1308822,-1092552,-5764497,-11956038,-13264568,-17222996,-20040958,-18478863,-23095325,-25232615,-23116327,-25248156,-24903791,-24679558,-27985418,-28795090,-28766560,-27785887,-28411646,-30523914,-29632421,-31603212,-31072344,-33633614,-34386791,-33944565,-35924747,-35324810,-33975246,-35522408,-36462597,-37112171,-36921963,-37183781,-38379963,-39846420,-41297913,-42891411,-44672005,-45111774,-45551388,-47242294,-47695957,-46727142,-45576012,-43805771,-42859848,-41425491,-40126156,-36956711,-33851246,-33461800,-30047426,-26764458,-24061563,-21771715,-16303808,-10372501,-6931321,-5799084,2596879,63374,6405505,6585597,5536429,7149053,11952838,15570713,17172199,15807886,16602766,16933956,17274008,16721685,16731075,14898501},
{-30149969,-29531525,-27509529,-26724922,-28082512,-28418076,-27391466,-27407360,-26721430,-25309872,-23942949,-22459412,-20692215,-18622593,-17535265,-15714924,-14397644,-14330288,-13700902,-13090384,-10318669,-11718529,-11973668,-11014364,-10637108,-9566693,-9001404,-8382548,-7870453,-6901906,-5847160,-4904708,-3645545,-2753257,-2326637,-1422454,-818617,165120,1134198,1749762,2326301,2868010,3386590,4226748,4320831,4860413,5441936,5281084,5090442,4098771,3481853,3289700,3246489,3471706,3530614,3749083,3485408,3827381,3876117,4236191,4812872,5065763,4993003,6105902,5716140,5390184,5372257,6298366,5550827,4452518,3546209,2999460,2258173,1519094,441254,73831,-496595,-800711,-455778,-347375,-454409,-194013,-70253,-50691,428737,1124269,1812161,3746970,5008801,6725934,6173732,5519782,6294958,7480681,8493815,9134270,9992943,11197686,12219442,15204850,10006300,5927175,5925542,4422830,2526607,-313004,-2342128,-5504329,-11651748,-13751636,-17818892,-20459059,-17377302,-21210876,-24601606,-23121775,-24927477,-25692295,-25823431,-28580849,-29266331,-29046232,-28821819,-29207169,-30148470,-31105505,-31864485,-31731112,-33322147,-34048656,-34505177,-35497711,-35737175,-35364433,-35545261,-37119587,-37733036,-36394581,-36460796,-37569389,-39325703,-41488255,-43247219,-44784832,-44608326,-44723629,-46743050,-47221840,-46454102,-45351387,-42981274,-41591129,-40078781,-39115868,-36603027,-34879807,-33446232,-29191336,-26499144,-23818377,-21238323,-15426647,-9027905,-4993836,-5145578,4376810,796316,6315617,7385352,6384181,8017722,12775492,15966784,17363323,15918665,16806747,17001348,17330513,16718756,16734112,14898501},
{-30149969,-29510500,-27452875,-26537128,-27923222,-28453272,-27301302,-27302330,-26867474,-25567135,-24049902,-22955557,-20856813,-17838305,-17029062,-15293135,-13654037,-13342794,-12900486,-11933059,-9977108,-10518422,-11221321,-10182254,-9657729,-8434136,-7791306,-7111596,-6880917,-5896114,-5046288,-4071856,-2599308,-2127897,-1712689,-905257,510436,1301557,1920062,2577605,3376432,3729949,4179021,4961236,5540860,5589080,6578262,6312110,5887597,5301718,4591738,4602373,4350507,4599999,5055436,4916872,5309031,4801470,5057051,5176071,5530244,5973951,6221508,6880473,6388588,8224645,5935021,6557389,6289303,6258755,5285892,4519108,3836862,3167583,2518435,1833849,1431843,1374126,1343778,1398599,933484,559433,-84970,-1337376,-2566703,-2087335,122780,3467706,6344817,8823382,9585837,8251444,8645366,9617594,10601483,11108368,12558828,11170389,15097693,12638034,6139289,3615916,3705894,2281621,1306972,-759634,-3243636,-7133789,-10931398,-15725953,-17802366,-21440321,-18322826,-21174429,-25818232,-23442822,-24442381,-25737942,-27407009,-29196323,-29334108,-29571419,-30607378,-31150867,-30628580,-32525047,-31745008,-31659256,-33189278,-34796932,-34458591,-33989822,-35560905,-35581051,-36462933,-37417938,-37439156,-36365078,-37346771,-38187401,-38679905,-41055428,-43164715,-44902779,-44534882,-44619896,-46426163,-46640438,-45880943,-44950661,-42465599,-40035328,-38951782,-38295410,-36000111,-35351376,-32798836,-29226820,-27112844,-23749733,-20500740,-14418389,-8623146,-4234719,-4469143,5689420,1611082,6540532,8715564,7339945,8787592,13180049,16142504,17699596,16069721,17042309,17093109,17398613,16753710,16736753,14898501},
{-30149969,-29489172,-27393894,-26337517,-27716940,-28447485,-27202364,-27217928,-27056950,-25820845,-24113811,-23346081,-20888348,-17238424,-16609730,-14841346,-12840154,-12350976,-11738132,-10557695,-9396860,-9088815,-10310383,-9427018,-8512020,-7330585,-6558388,-6110877,-5808574,-5188231,-4305350,-2990886,-2040769,-931549,-301951,872501,1730827,2501210,3000618,3563555,4225109,4722987,4968843,5867229,6687315,6020951,7286527,7337789,7073081,6341980,5637359,5680628,5461795,5855624,6194354,6147073,6693817,5906603,6240489,6557174,6743445,6747910,6901386,7888495,7772835,7857155,7623086,7067620,6800909,8107874,7021732,6259015,5584804,5108761,4643296,4319312,3667346,3691301,3594058,2422622,260919,-2177917,-1908245,3287655,9775254,10540319,7175883,4180630,11273401,11471540,8397315,9529822,11339540,11743436,13246843,11940132,12936027,11893239,15770739,9668072,2354445,1503011,2522685,522390,-502301,-2987836,-4797132,-8049180,-12589433,-17879318,-19283827,-22693556,-20659491,-23390627,-26170099,-24350473,-26143187,-27055992,-29333012,-29585077,-29979143,-30763828,-32470291,-32531540,-32245506,-31667170,-33866665,-32193195,-32087189,-34036777,-34497971,-34377995,-35476246,-36151878,-36074471,-37111401,-37225292,-36447521,-37269878,-38415398,-38526295,-41241821,-43347679,-44817234,-44437199,-44557472,-45084061,-44640373,-44293232,-43466942,-42206909,-38384682,-37445641,-37370308,-35294147,-35053852,-32054482,-29314650,-27240915,-23383959,-19677641,-13248178,-8398224,-4118512,-3422993,5535586,3001614,7846227,10615613,8846722,10338906,13873842,16365278,18034775,16351070,17348452,17200020,17476448,16817739,16738605,14898501},
{-30149969,-29467375,-27333652,-26126076,-27468813,-28397055,-27096531,-27151491,-27269548,-26059137,-24171869,-23586977,-20934341,-16817226,-16285397,-14353206,-11983212,-11408358,-10707770,-9551228,-8445197,-7538253,-9413365,-8461410,-7374784,-6140620,-5461584,-5110351,-4628738,-4262016,-3501360,-2222484,-1162809,-268214,789620,1737806,2777869,3592429,4315873,4694223,5024872,5560489,5886252,6873677,7548840,7100441,8094551,8219284,8221586,7780376,6935241,6852384,6550002,6838462,7332605,7393518,7473569,6723141,7308944,7476223,8148268,8069119,8670920,8693289,9116802,8368857,8059311,8077542,8208429,8193405,8106912,7939891,7880054,7375692,6865753,7089468,6434844,5807129,3815486,87858,-1077368,6439151,8720601,8554116,9738557,17111494,15822792,9596756,18794357,17085169,14630378,12835130,10518987,11971323,13607232,13689506,13886604,11116698,14651327,11968371,910865,-489850,861101,-1618764,-3014333,-5712048,-6598462,-10175548,-16009439,-19907948,-20372398,-23995932,-20101423,-23402935,-25086826,-27891659,-27936136,-29668779,-31028442,-31872084,-32382500,-33325325,-34143986,-34017582,-33199009,-31806942,-32369804,-33190990,-32404732,-32198509,-33950069,-34472733,-34967716,-36550335,-36555733,-36345428,-36678295,-36358521,-37733170,-38897789,-39407654,-42067902,-43551373,-44659744,-44076565,-44613907,-43984306,-43621380,-43489437,-43670437,-41841057,-37170204,-35657478,-36059772,-34851326,-33698589,-31153793,-28974916,-26810913,-22680044,-18486115,-11855599,-6951030,-3575047,-2057039,5157567,4840303,8836672,11436727,10276572,11877716,14065960,16564827,18131256,16744188,17681625,17328796,17553747,16906694,16739067,14898501},
{-30149969,-29445105,-27273121,-25907631,-27176531,-28306597,-26985897,-27095243,-27474642,-26275682,-24223873,-23683882,-20914278,-16546556,-16075880,-13761167,-11095577,-10575683,-9989016,-8723151,-7158319,-6525302,-8579995,-7231578,-6490611,-4948016,-4235137,-4156750,-3397376,-3123876,-2432729,-1390794,-160135,584518,1726170,3129338,3703089,4561658,5349557,5510365,5640770,6073678,6867980,7738561,8662427,9092260,9315843,9163549,9261539,9096166,8211237,8008114,7567033,8135421,8496822,8373191,9719809,7940888,8828538,8704930,9183749,9506518,9652252,10202063,9588389,9518476,9684700,8817674,8847895,9238211,9608267,9985925,10360095,10164742,9865294,9917261,8611189,6291986,1512799,2386596,9494510,14768270,15162371,18137640,16254946,17092121,16846937,20406065,22973833,24681623,22949476,18910791,12496939,10782248,12947042,14377581,14236087,12311938,15440382,13516698,913270,-1700439,-1245336,-3936253,-5923442,-7523777,-9642859,-11874380,-15727873,-22021152,-21276436,-20733412,-22389015,-24976965,-25432766,-27486265,-30148087,-30026312,-33604874,-35057987,-36101097,-35926880,-36468513,-35791225,-35201405,-34350441,-31984770,-32498425,-32990616,-32970734,-32574787,-33350208,-33347225,-36143551,-36759819,-35667290,-36346664,-36947414,-37851028,-39147888,-40031322,-41743084,-43320332,-44089108,-43627312,-44541084,-43624203,-43443764,-42043945,-41269020,-40282757,-36685505,-34203953,-34405685,-33590462,-31943193,-29990694,-28405861,-26066547,-21756149,-17208853,-10379900,-5549783,-429970,254508,4872646,6784045,9320804,11148619,10462071,12455555,14077143,17399218,18145754,17179993,17949875,17481054,17619120,17019779,16737293,14898501},
{-30149969,-29422533,-27212202,-25686371,-26840757,-28172613,-26878576,-27034414,-27667894,-26454214,-24273802,-23649220,-20852579,-16446318,-15927437,-13145669,-10286160,-9942573,-9220673,-8203317,-5659667,-5079095,-7531590,-6005847,-5352821,-3776724,-2448792,-2579369,-2061997,-1894424,-1189545,-541999,501842,1649202,2886942,3980037,4642273,5129851,5605185,5295279,5425031,5764998,7313416,8722332,9928339,10536729,10029809,10199790,10442269,10153071,9421753,9425340,9063248,9235493,9877758,9741259,9062964,8905807,10221069,10109838,10358924,11296612,10812387,11807789,11169353,11253042,10784819,10366764,10075745,10672317,10845167,11838520,12142289,13230614,13057446,11870872,8901161,6560745,9754262,15429180,20708916,22835609,23403320,20180996,18218334,10581104,12367810,13283150,19147476,22173229,27692450,28844465,19975101,16022701,9943552,12115928,11966698,12651779,16592434,11430427,-706663,-3320419,-3840175,-6076200,-8248400,-9837455,-12832208,-13540549,-15728716,-23949833,-21586166,-22609543,-23079290,-23753937,-26581198,-30346972,-32958969,-33553425,-36333088,-37179440,-38942287,-40079796,-38571579,-38894421,-38327442,-36725681,-35514523,-33345200,-33270935,-34113590,-34686237,-33546669,-32415348,-35307129,-36600517,-35064697,-36109665,-36379070,-37401649,-38884224,-40201103,-40731434,-41877247,-42780113,-42296227,-43077038,-42370197,-41878605,-40134140,-38193127,-37230030,-34206264,-32149521,-32865871,-31931166,-30022551,-28691765,-27463081,-24885162,-20934029,-15678586,-8474305,-2627194,2238694,2886176,6360324,8496552,9648350,11117209,10032082,12902949,15078869,18420298,18212164,17593678,18164743,17639406,17675528,17154900,16732115,14898501},
{-30149969,-29399960,-27150640,-25462278,-26473530,-28002222,-26773928,-26983076,-27817772,-26594584,-24315142,-23511848,-20744959,-16507328,-15767265,-12497605,-9551982,-9318666,-8361384,-7297270,-4928939,-3969344,-6122105,-4754427,-3876503,-2299407,-1057891,-937106,-769404,-524361,123045,696294,1569059,2603015,3622393,4675871,4979345,4885893,4948574,4847168,5713116,5867518,6969783,9219430,10679583,11212220,10580334,11132606,11137962,11162612,10728183,10305651,10278911,10697560,11133241,11442291,10545903,10689424,11891218,11393942,11644483,12204772,12831978,13395200,13125308,12342550,12596436,11912699,11572243,12240048,12685945,13496670,14418097,15326260,15097375,11643887,11675097,17083782,24687967,27303659,27071608,23739973,18872040,13722349,13150406,9018497,9217020,9633555,13531292,16386116,18206831,25614845,26374746,25203203,16505724,14879375,17146048,14814416,12219068,1796090,-4097426,-5561821,-5679223,-7995591,-12033020,-13731659,-14508151,-16691662,-15677499,-26242960,-20656340,-24496038,-28665169,-26868816,-30409969,-32217087,-39795795,-37844288,-38736782,-40692997,-41200199,-43128998,-40861217,-39990067,-39326988,-38584930,-36826519,-35770710,-34368565,-32886513,-34665955,-34180107,-33253628,-35370827,-35818077,-34409389,-35084663,-35542175,-36093395,-37891701,-39301617,-39487370,-40454884,-41093975,-40705906,-41014458,-40978027,-40402035,-38059933,-35530052,-34151077,-32625183,-30088892,-31971064,-31073153,-27979885,-27110399,-25986397,-23059721,-19471977,-13340457,-6184994,728638,3998824,5605680,9227036,9870475,9660666,10805884,9520817,12794665,16009689,19084469,18877590,17954472,18372723,17809895,17738857,17306778,16721983,14898501},
{-30149969,-29377726,-27089222,-25240034,-26080460,-27796598,-26674574,-26929876,-27916595,-26684547,-24368927,-23315212,-20620995,-16762215,-15511804,-11781884,-9024827,-8637945,-7418783,-6083309,-3773852,-2733862,-4266636,-3136508,-3045340,-933400,-8072,418638,863673,606223,1384604,1888846,2818748,3555165,4525944,4567931,4083238,5097414,7811714,9642863,10160580,11078858,11246354,9617056,11359244,10688729,10255796,10303908,10860504,11134457,10752170,10675015,11027630,11375477,12169844,12615902,12546604,11799120,13270807,12836498,13551245,13780094,13831007,14277787,14636501,14239288,14265642,14221030,13512115,14050867,14733568,15436483,16060465,15999283,13422701,16070959,24860987,32842499,31730171,29886757,27235998,18033356,14154669,12168402,10572898,9349412,10578663,13661894,16256289,17716433,17821960,18990290,24077072,32362610,30294674,26610077,25115341,21167721,8918481,1552294,-2615158,-8323448,-9962009,-11305840,-14455887,-15211615,-17202208,-18966600,-20270195,-26689713,-24131966,-27565062,-32692192,-30474224,-35303257,-38886021,-43162682,-44094078,-45063118,-46029762,-46654758,-43784985,-43194904,-44429108,-40687351,-39409325,-39755249,-38420067,-36906898,-35052311,-34601242,-33406178,-33058216,-33807068,-34310722,-33874538,-33769352,-34713459,-34206337,-36894798,-37654099,-37389606,-38845470,-39293098,-39268364,-38604794,-38797649,-38254147,-36094212,-33924225,-31597769,-30501915,-28414284,-30588095,-29584799,-26473579,-25639380,-24310169,-21131622,-17390709,-11037099,-4156203,1976189,4685271,8739730,11996364,11291313,9497514,9827144,8707180,12083993,16783104,19238567,19227022,18270016,18607281,17991980,17820606,17468267,16704990,14898501},
{-30149969,-29356136,-27029358,-25023439,-25663027,-27569241,-26585114,-26875732,-27956062,-26710196,-24448673,-23087353,-20481920,-17044003,-15104811,-10956141,-8571685,-7927850,-6323750,-5143919,-2772811,-1274680,-2266442,-1445180,-1744030,315679,1351860,1856235,2092044,1831395,2472473,3060314,3750561,4522516,4812388,3398413,4708809,9501490,13200245,13789104,13823269,14677898,14785057,13882670,15031145,13232432,12569968,12302769,11938647,11231426,9366501,9195029,9110742,9770602,11347915,12995904,14142954,13366706,14737991,14754131,14895444,15538073,15321255,16261204,15590348,16501089,15790604,15936694,15728189,15834972,16435383,17356966,17085209,14505698,15310294,29963045,38393044,37086540,34781372,28380335,21347664,17111603,13482383,14004345,12674357,12931579,14005254,16508802,18487988,19056698,18992575,18860216,20947577,22262991,18277906,20956413,18429840,13967579,2485551,-3127034,-4402994,-8102011,-16027189,-16591848,-17628735,-18026886,-19458689,-20969158,-23854479,-27484098,-25277031,-33999481,-37213730,-35396080,-39822323,-42621883,-43069641,-43710384,-45272324,-45809299,-45844795,-44567520,-46105255,-47627102,-46738811,-42843338,-39155876,-38063183,-37163368,-36256596,-33742664,-33955635,-30671169,-32320530,-30904766,-31871775,-32929600,-33740440,-33108440,-35542610,-35646461,-35792309,-36400391,-36927338,-37208969,-36877712,-37036938,-36352829,-34578182,-32376160,-29547007,-27927103,-26535213,-28943501,-27973499,-24897112,-24320816,-22804420,-19181318,-14972211,-8526506,-2234555,2777956,6817214,11020110,13810302,12307718,9504768,8980257,7851115,11361845,17491594,19867645,19397116,18574726,18877146,18160906,17911110,17631514,16678993,14898501},
{-30149969,-29335394,-26971817,-24808603,-25234196,-27323233,-26511150,-26813547,-27921244,-26681717,-24542362,-22867849,-20324039,-17287132,-14513776,-9991418,-8095741,-7245448,-5278285,-4070770,-1694706,89361,407943,-519752,-312365,1462370,2511824,2987665,3262421,3165422,3997864,4559419,4824171,5767217,4868833,3289229,9440306,12658766,12882381,14058899,14268653,15051807,14616397,16628521,17147696,16107397,14965136,15728858,16214273,15958719,13133349,12943038,14483033,12996703,9104035,10050508,13618702,15671512,15981361,16226370,15984948,16903664,16813200,17898397,17798302,18135088,18322138,17841993,17252384,18002335,18483599,18885166,17240610,11131988,29431950,37338768,39057842,39124802,32842167,29061867,21006298,20027800,20121943,20057192,17708952,17574339,18770863,19742733,20048252,20067213,19744757,20082863,19607855,23146328,23209734,21935379,13711310,3173352,1300065,-2421157,-4111921,2926672,-19280045,-21603775,-20629858,-21091932,-22871265,-26021160,-26073593,-28344336,-35762463,-40951103,-38012829,-39358757,-43413029,-44443737,-45105171,-44998051,-45854496,-46765270,-46839264,-48376583,-50018047,-49591103,-47859798,-45243782,-42658844,-41213211,-38259197,-36712826,-33966137,-32521751,-32407478,-31501125,-28966784,-29805801,-32390415,-32395828,-32395046,-34667953,-34402290,-34407421,-34438869,-34593132,-34994980,-34777611,-35295082,-34373730,-32656376,-30554619,-27544558,-25940018,-25014793,-27719534,-25730879,-23152475,-22836718,-21166668,-16973545,-12350059,-5550172,-472654,3002547,9826528,12538992,15171190,13267866,9948465,9214056,7189582,10599235,18118782,19936857,19489397,18806067,19190514,18321672,17982847,17787468,16641916,14898501},
{-30149969,-29315563,-26916611,-24596985,-24808737,-27067270,-26455809,-26744202,-27818499,-26563683,-24635660,-22677935,-20173611,-17441433,-13757508,-8925075,-7617094,-6707023,-4301656,-2991464,-543600,1123999,1489664,2308487,1110342,2579599,3598401,4018740,4446306,5070675,6210099,5957420,6845773,6388779,4452966,6620327,13292862,11660044,12893694,14194091,15465788,16583117,16246775,18270584,18388802,18901096,17913919,17668615,17650061,18722288,17591063,16827923,19300112,20699080,18626793,12473992,8396810,10785750,12963145,13753444,13930103,15838312,16983099,18589178,18404484,18932299,19166159,20019058,19227810,19556108,20424232,20286205,12824157,18536177,36611385,41364670,42162220,41503918,31429113,28057165,26277843,24849316,22889418,22017473,20237558,20119911,20447851,19848482,19265015,19767899,18802620,18570623,17037384,15274416,11306937,14766328,21549932,11976069,5541917,-3293942,2019694,-3803624,-17660887,-24115309,-22266727,-21576267,-25058512,-29302193,-28537960,-26841227,-35812695,-43121902,-42063484,-44145832,-44986485,-46703678,-47515896,-47851585,-48299324,-47991402,-49445034,-50985790,-51435112,-50712017,-48567780,-46747334,-44490192,-42662903,-41441204,-36685684,-34721653,-31388918,-29592196,-28943077,-28553377,-29936880,-31829319,-30979069,-31637800,-34115452,-33080048,-33119278,-32751858,-32521679,-32934738,-33017113,-33504601,-32529716,-31233067,-28788067,-25803635,-24234161,-23720823,-25839485,-22910646,-20983486,-20790247,-18936205,-14606435,-9385098,-2794498,1704159,4436286,12001960,13785259,16359379,14188216,10629389,10544411,6970318,9783331,18118567,19729576,19940186,19086493,19532515,18484556,18017519,17925837,16592163,14898501},
{-30149969,-29296589,-26864031,-24396509,-24393343,-26811863,-26424139,-26670919,-27659506,-26386356,-24708675,-22524973,-20037342,-17489794,-12879417,-7716463,-7027862,-6171409,-3577175,-1954973,544127,2580078,2943798,4128706,2719018,3743248,4722292,5196913,5731422,6655560,6551003,7213872,8215884,7274397,4299895,10297009,11899319,12498598,11514837,12406862,13376576,16187965,16732849,18904339,18790703,19875015,20698444,21217382,21193127,21950150,21620182,20195528,20841345,20535881,21017107,21091463,19306580,15118829,14579642,16671896,14759703,13628946,12729892,13890905,16396887,16823429,17404293,18520466,19333294,19759378,19000418,13574835,17645098,30670378,41060276,42857761,46430008,45756454,32746643,27194572,27001509,24910057,23544912,23986416,22806524,21126579,20479435,19708733,19325813,19086922,18759382,18746912,16228460,11583625,6646377,3704143,5748928,1615332,1327625,-11450270,-12594444,-13182170,-15743211,-25837641,-24778143,-23772228,-27012182,-30291914,-31825504,-27107201,-41133728,-44881664,-42361008,-46746426,-47585117,-48710735,-49495979,-49913033,-50212952,-50604115,-51400074,-51615414,-51374081,-50619370,-48761303,-46535969,-44613819,-42650234,-41409439,-39014927,-34504482,-32155262,-29977201,-28161556,-28181555,-28379475,-28785069,-28792522,-29548744,-32744591,-31018522,-31808649,-30809803,-30483667,-31128767,-31425646,-31544855,-30576002,-29092108,-27408344,-24963182,-23385384,-23862637,-23051550,-19513796,-18674883,-18554766,-16447218,-11757342,-6486874,-1125321,2557763,7155577,13149668,14969728,17463243,14470967,11002166,12708595,7274383,8678867,17718214,19325624,20059599,19359850,19855648,18642437,18023561,18037563,16529089,14898501},
{-30149969,-29278349,-26814987,-24208281,-23994572,-26569487,-26422585,-26599491,-27449862,-26150900,-24737566,-22409128,-19918972,-17436243,-12026368,-6548410,-6281675,-5739280,-3100149,-1006257,1512641,3473952,4226215,5029064,4694552,5007013,5990270,6448614,7226308,8084614,8301142,9525160,9687685,8053555,6149738,12046145,10192479,10297562,10082373,10817575,13176838,14493986,16164192,17841541,18434864,19527500,20135876,21062120,21530842,22526611,22633821,24016884,24982075,25620136,25292759,23893620,25636284,27271467,29586313,29419069,30254854,29584860,27199017,23242571,20925030,18593212,17637117,15283412,14545250,15740612,16502108,20444725,27510221,38879280,43675663,45407463,46555515,34424534,29286081,28060133,27769291,26128565,25683681,24026020,23457630,21593504,20152393,18303766,17634066,17305336,17038548,15673923,12518228,8958652,4465626,445365,-2684318,-4843626,-4891669,-4804006,-14516299,-17620829,-21124752,-26587915,-29191065,-27911615,-29308439,-33063206,-34230221,-27453386,-44448105,-44654156,-48464481,-48877914,-49774830,-50854107,-51445507,-51524994,-51629875,-51902981,-51975887,-51586159,-50814434,-49858704,-48240242,-46121971,-44361969,-42877075,-40689445,-39154148,-34226852,-31408072,-29462318,-27797647,-28108397,-26721605,-27788666,-27955978,-27122023,-29597601,-28513500,-29240751,-29512390,-28785627,-28805651,-29166660,-29500795,-28801428,-27705023,-26430576,-23984087,-22863340,-22948610,-19202103,-15707704,-16302198,-16507704,-13708279,-8404355,-3970145,1240919,2826486,10068520,13799833,15992887,18265501,14724198,13024516,14661822,7924809,7924823,16829836,18718473,20071260,19535446,20135935,18798405,18022377,18118912,16453402,14898501},
{-30149969,-29260714,-26770075,-24033215,-23617907,-26344376,-26449858,-26528370,-27211948,-25870733,-24707220,-22322674,-19821981,-17310860,-11353081,-5573892,-5349265,-5210304,-2724146,-61248,2490256,4309750,5081137,5879800,7527937,6416902,7216590,7813798,8587276,9437923,9236249,11050473,11128171,8227016,11502657,13310735,10458681,9896964,9533676,10473023,11856948,13845871,16540712,17332235,16991674,18307188,20432060,21326706,21463577,22125034,22199623,22564627,23314350,26128962,27068775,30292873,31685452,33566753,33993694,33084805,36332489,35881836,34441643,35413982,34246620,36403397,32729202,34057228,35432087,32904663,34961536,36090130,37929913,44190102,45227303,48803116,46306873,30885149,28393730,29502211,28183540,27029766,24453848,23062624,22870510,19594786,17974466,16754660,16015535,14986970,13518031,12007960,9218362,6134984,2383486,-913740,-3734241,-6388226,-8783014,-8706416,-10427812,-16557394,-21866867,-29667852,-32411816,-29826704,-31350615,-37433060,-38260315,-35477558,-48131615,-47740456,-50477207,-50272499,-51178345,-52080036,-52446487,-51918636,-51718369,-51800426,-51638927,-50983761,-49992897,-48723312,-47310135,-45478924,-43434837,-42852608,-40574120,-38060493,-33720448,-30438749,-28555065,-26883984,-26820347,-26646599,-26382729,-27387680,-26852459,-26754080,-26135637,-25549368,-27786880,-26727741,-26720617,-26972977,-27410759,-27564701,-27626976,-26148056,-22521391,-21592440,-21380655,-15674821,-12848560,-13467618,-13916192,-10465423,-5110159,-1237008,2941861,3084501,11018988,14316219,16509321,18821520,14996281,14706434,16170380,9070198,7025764,15834449,18080030,20094151,19684612,20354589,18960592,18033245,18173992,16367367,14898501},
{-30149969,-29243614,-26729023,-23879288,-23275839,-26149540,-26504011,-26461563,-26964636,-25569460,-24598045,-22246445,-19743538,-17146856,-10802858,-4920846,-4306769,-4423049,-2186842,1018142,3736062,5629050,6786469,8059619,9173241,8230933,8684261,9274576,10029825,10770812,11776734,12566941,12264122,7962430,13647562,13897095,11876349,10903819,10139421,10113366,11030671,13025793,15743148,16057226,16389217,17636992,18837362,20503349,21466909,21694948,21563467,20026630,20885227,23281706,25453077,25447660,24221535,23933319,27305500,29070694,32146278,34636547,39252392,40433025,40400440,38819214,34598419,36311680,37787193,38635227,42298222,43718578,44582748,44171288,45807930,47135307,36668140,30636236,29290646,28631538,27209103,25107281,23011101,22534111,21457937,18580486,15743526,13680496,13231778,12164963,11043739,9736834,6779807,3455315,-318051,-4034206,-6357122,-7649340,-9876183,-11740050,-13743588,-17114580,-23842310,-33874081,-34360825,-31683292,-33787212,-41248264,-41523102,-44022747,-49545437,-50871330,-50728237,-50968731,-51920895,-52363590,-52184174,-51496872,-51080326,-50922287,-50544666,-49555359,-48391251,-47351429,-46183964,-44835754,-43285210,-42559650,-40266178,-37740494,-33667149,-30663837,-28063177,-26684217,-25726023,-25666731,-24526915,-25831491,-26529585,-26405552,-24681713,-23643806,-25703976,-24851677,-24535183,-24872189,-26451195,-26303675,-25478502,-23799452,-21311747,-20635664,-19194069,-12521750,-11183819,-10772001,-11252082,-7195832,-1933457,523887,3784095,5065865,11743378,14683966,16762325,19639874,16190649,16571262,17586288,10621821,7185086,14453590,17839960,19781689,19882862,20506519,19138615,18075518,18213345,16274719,14898501},
{-30149969,-29227081,-26691570,-23748915,-22976883,-25973902,-26570786,-26402569,-26735401,-25265606,-24410603,-22155600,-19683992,-16976551,-10662456,-4655444,-3279329,-3294504,-1278091,2398034,5254996,6794933,8212471,9892025,10353650,10933366,10151987,10499957,11702798,12133410,13565373,13662742,13297171,11846950,14558609,13634282,12180058,12176268,10670336,10323775,10919456,12369641,12931376,14202067,15417263,16744638,17625679,19127213,20456848,20289408,19490234,18044916,18704397,20493370,22793039,22130692,22160250,21046413,21959942,23765005,29028425,32953407,36248734,41324707,41729027,41264671,40154274,38988609,42706749,42528625,42765804,43386566,45387295,46263863,40734669,32268723,29483725,29411427,29526566,28132090,25459066,23200315,20776121,19096315,17761230,14980332,11950560,9333528,9483247,8946200,7959600,5925117,4445899,1522781,-2941228,-5708676,-9005166,-8996161,-10348126,-12437599,-15691352,-21170485,-25689741,-37311047,-35766171,-34399658,-36571697,-43052238,-44931473,-55350815,-57922424,-51262718,-50505981,-51280891,-52236641,-51517483,-51121658,-50373760,-49700245,-49478176,-48592430,-47685196,-46606750,-45735054,-44783886,-43973881,-42379288,-41977375,-40201756,-37404205,-34156818,-29166716,-26757742,-25503674,-24405151,-24843809,-24479534,-23974684,-24012205,-26152714,-23419491,-21805178,-22886452,-23438425,-22534212,-22860834,-24474024,-23103186,-21953922,-21017828,-19098246,-19676929,-16520874,-10400065,-7592763,-7946077,-8725914,-3503025,1200793,1055347,4246086,7808947,12556179,15073664,17112471,20076815,17407146,18202932,18941229,12345916,7959543,13056437,17844707,19592150,19984146,20624786,19331697,18165958,18248955,16180267,14898501},
{-30149969,-29211239,-26658506,-23640045,-22720594,-25846607,-26640505,-26352007,-26538097,-24991217,-24151508,-22060364,-19639408,-16826349,-10845897,-4855544,-2409630,-1962499,-44062,3902403,6911406,8508129,9904025,11591805,11779903,12790684,11319798,12128012,13187755,13570010,14879775,15033279,14713173,13645738,15400146,13952835,12105482,12025128,10408295,10123182,10588465,11439840,11898333,12989569,13455280,15032694,15766126,16449409,18401478,18478388,17522446,17230614,18117451,18577190,20211637,20948181,22104761,22771185,23695568,25992754,25991932,29746162,28884470,37850666,42990929,42869743,42595966,43085144,43498001,42357502,42825916,44256531,46439812,45340389,31768925,23593628,25799915,30006525,30362850,27793621,24007751,20344435,18124807,15991186,14040712,12309894,9262250,7377589,6456506,5892050,4283007,1245744,-1297083,-3540395,-5662911,-2690227,-8606011,-11061382,-11942587,-14442951,-16701752,-22824160,-28597429,-39458038,-36510597,-36761219,-39080532,-44135376,-42028530,-61199703,-61764385,-50968788,-50810883,-51776794,-51618034,-50841633,-50025856,-49037163,-48283478,-47899136,-46518044,-45771961,-44903812,-44022831,-43627392,-42277115,-41176273,-40455280,-39402115,-37515930,-33693043,-27876060,-26041004,-24377237,-23492340,-23418524,-23620287,-21567877,-22119827,-23594913,-23428629,-20650322,-20228945,-22018698,-21082886,-20527618,-20650181,-19096893,-18951784,-18165361,-16188261,-17357050,-13191515,-8646880,-4279389,-6340047,-5214598,578274,3140624,1425122,4927583,9911587,13478080,15520012,17812582,19997099,17812992,19435305,20075109,13842900,9120095,11546090,18014187,19513933,20132524,20726603,19535929,18310890,18288654,16089231,14898501},
{-30149969,-29196276,-26631186,-23559965,-22516605,-25734194,-26710270,-26303411,-26390043,-24762922,-23839840,-21955292,-19614485,-16698977,-11268946,-5409434,-1774209,-600801,1295357,5245430,8346089,9629810,10869095,12787205,13289998,13739123,14275961,13706492,14544069,15619875,16141378,16665627,15717463,13181036,13815277,12941536,11897089,12205276,11231816,10879219,10545238,10716949,11576063,11933415,12039536,13013457,14283314,14694683,15258180,15825817,16370975,16145119,16682384,18092846,19333727,20466434,22827332,25533106,24393103,24841646,23939920,25261053,31322609,37144825,36605793,39631573,41795132,42528889,42200188,42333267,42930477,44510174,43397423,38443443,23071264,23225565,26705885,28405767,28366907,26427547,22182087,17266741,14140121,12750039,11397718,9903670,7421836,5381933,4638682,2981250,1144669,1160623,-2769819,-6699107,-7154910,-9326821,-9299226,-12674191,-14436560,-17936687,-22002916,-25492069,-31729877,-40058376,-37066109,-37669758,-40703720,-44882030,-41700012,-60180481,-64723061,-51979477,-51436359,-51630470,-51304424,-50324554,-49729275,-48336132,-47457935,-46815552,-45649227,-44592949,-43051285,-42152916,-41481441,-40445183,-39378815,-38967411,-37699963,-36212006,-33432495,-29870319,-25037737,-24422709,-22994741,-22660015,-21908318,-20671663,-20716621,-19025045,-21754675,-19768391,-18299942,-18829857,-19945515,-17515495,-17019314,-16166195,-15569143,-14752221,-12990264,-13184158,-9237762,-5616535,-2212529,-5183886,-678599,5598052,4075865,3511239,7056643,12200738,14679128,16782747,19041769,19320112,17721069,20453369,21009197,15310784,10391982,10433313,18124298,19613073,20245281,20815903,19769264,18509977,18333546,16006458,14898501},
{-30149969,-29182383,-26610172,-23516325,-22369894,-25673199,-26782417,-26246895,-26290743,-24603638,-23505924,-21850124,-19613022,-16597816,-11849109,-6173977,-1405757,453543,2409594,6139017,9062709,10011922,11118583,13606844,14937224,15022406,15640213,14688480,16087759,17399170,17124413,16881079,15688307,14353559,13056931,12168970,10757638,12526617,12508797,12323799,11139499,10504125,11257152,11585243,11790792,12015351,12867245,13404101,13841516,14154830,15114497,15016551,16180218,17967871,18652983,20214077,22105408,25467611,26436913,26179470,24241575,25843164,27169022,27114151,30076031,29899405,30978601,38230721,39243172,38516132,41890656,40829910,38041420,23883635,21189602,23821707,26682392,26884886,24799084,22775917,19294094,14191648,11285801,9452197,7452679,6050917,3665038,1642897,916872,156245,-1695406,-1540119,-5199905,-6643315,-6200392,-8581144,-10002152,-14467325,-17657200,-22839855,-27908758,-28945261,-34928082,-36494823,-37213737,-39650208,-42060703,-45116539,-47403671,-55165390,-63158443,-51995556,-51770008,-52123863,-51773312,-50844994,-49985275,-48635399,-47291332,-45781776,-44629025,-43191219,-36542156,-39428387,-39460316,-38670826,-37916866,-37134296,-35833405,-35306641,-33410164,-30253824,-26424524,-22988518,-23077665,-21417351,-20009686,-20230204,-19939058,-18069315,-22231667,-18484882,-17323692,-17155094,-18525587,-16232782,-14662825,-13033792,-11860617,-10812817,-8336537,-7870962,-5462707,-3188512,-1920319,-2633290,4007225,7974911,6531818,9984577,10552438,14022420,16021837,18415390,20879421,18256807,18320837,21492933,22040527,16892094,11533545,10666381,17886229,19859291,20370672,20894615,20035704,18755003,18380106,15935693,14898501},
{-30149969,-29169693,-26595015,-23505699,-22279263,-25678188,-26855062,-26177765,-26235409,-24517191,-23177441,-21756128,-19637491,-16523142,-12449893,-7091655,-1583531,984688,2997296,6232284,9109185,9735656,10293062,13741624,15949673,17003738,17046240,14816299,15271561,17549057,17617508,17357271,16407551,15550337,13638121,11658360,9475633,12685221,13286951,13305248,11788534,10909182,11023675,11187522,11739653,11969386,12022524,12853464,13093564,13811250,14574652,14522505,15843319,17650787,18226957,19315296,21513515,23502554,24408102,25209078,25741621,24212793,24014128,24864265,26801668,27018867,26563807,24770817,28021080,28540827,29673138,30672289,31148352,21797926,22263952,24361109,24607937,25098280,22449627,20585979,16525255,12643043,10630014,7073397,2760590,130299,-1827312,-2211010,-2154442,-2525634,-3906685,-6005667,-6538829,-4935001,-6810914,-9530192,-13700081,-15920293,-21142014,-28524807,-30140724,-29360380,-31113554,-35232910,-37427456,-39262859,-41439880,-43193512,-46149223,-54939240,-59039162,-51196026,-51864162,-52355785,-52060528,-51177044,-49992092,-48809414,-46986301,-45050358,-43323128,-41582775,-39246075,-38189137,-38009087,-37586876,-37121845,-35327110,-34221214,-32256821,-32443062,-29208014,-25751989,-21754494,-22661503,-20832033,-19439083,-19247849,-19190269,-19572147,-20459911,-17519312,-16132448,-15963077,-17316257,-14560587,-12258913,-10415510,-9145729,-6730862,-4558637,-2802321,-867574,-1315757,-1229749,1430292,7324106,8487595,9776796,13967734,14126341,15918310,17442438,20088318,21845881,17805218,18759115,22300056,23054218,18443653,13134033,11908812,17459339,20161491,20518675,20961649,20301546,19018414,18424528,15879057,14898501},
{-30149969,-29158241,-26585390,-23525599,-22244705,-25570965,-26911261,-26090736,-26217478,-24506369,-22880604,-21687794,-19689180,-16468288,-12969885,-8086806,-2168011,1012671,3149736,6015625,8328396,8532175,9155287,13174500,16786894,18482924,18309389,15805329,14650762,18240778,18134708,17905914,17098309,16252020,14816522,11382959,8881852,12348766,13978629,13370268,12905484,11165804,10937279,11268827,11302947,11112389,11508953,11981452,12259737,12592774,13438979,14414158,16519556,17178093,18120262,18519972,19900375,20221323,21458557,21698896,22513378,23345528,23561157,24029190,25600990,25691938,24303020,23696676,23707268,22846819,22926962,22183472,21724848,23053896,24690079,22666634,21721155,21783920,20188385,17932121,14726565,11774945,9136086,4465538,515113,-3572409,-6020326,-5130535,-5208812,-5245717,-5829341,-7457572,-8288928,-9112172,-10683784,-13968143,-16349215,-20333130,-24200426,-32804729,-40076496,-32995663,-37681427,-37713108,-37544563,-39512276,-41435871,-42068634,-43098171,-61456272,-57144978,-50639019,-51422840,-52430584,-52440094,-51703262,-50650375,-49272251,-47035870,-44518791,-42166500,-40342945,-38541252,-37487370,-36858379,-36092819,-35449593,-33905479,-32729691,-31898649,-30930229,-28220509,-25947947,-20981905,-21038500,-19314161,-18187542,-17977379,-17870829,-19700647,-19070585,-16300817,-14416700,-14922657,-16164850,-13133781,-10802519,-9872264,-7734954,-4712249,-1098635,35968,2503908,2391998,1005817,3332207,8214903,9028614,12588243,15271068,17051540,17807302,19215725,22589067,20790956,17187382,19023159,22819731,24071003,19993933,14587867,13231655,16682234,20222662,20645744,21009914,20544790,19263895,18464775,15836840,14898501},
{-30149969,-29147964,-26581810,-23579592,-22266903,-25483940,-26931976,-25961355,-26208767,-24560640,-22635614,-21650179,-19763685,-16437485,-13353267,-8952120,-3153898,203724,2554425,5151692,6940783,7278703,8410757,12387681,16312334,19050838,19658733,17480869,14129359,18448599,18575911,18784489,18679462,16970707,15847917,12760554,10326280,12049375,14058975,11942639,12907105,11342255,10850043,11231321,10939450,10992433,11100398,11309851,11739515,12410681,13394439,14499425,15747933,16597404,17869244,18151676,18484623,18903418,19423817,19689684,21441130,22277369,22772173,23367527,24664057,25033491,23874384,23519190,22630953,23625072,23749071,22804260,21057602,22730062,23851507,20517742,19530062,19153318,17929245,14141188,11261034,8682215,5404678,1706964,-992545,-4636812,-6318532,-7841687,-8215548,-7735188,-7892216,-8781939,-9783484,-12472334,-13912287,-12335076,-15244022,-22847376,-26254833,-34751560,-44519199,-38059296,-37179398,-41353512,-41018173,-41765846,-41608864,-41121407,-48900047,-61849533,-53021725,-50353703,-50878574,-52019829,-52146759,-51697689,-50653561,-49182076,-46581886,-44107162,-41550560,-39294792,-37238815,-36509010,-35491074,-34343781,-33664001,-32242592,-30390627,-30402248,-29609562,-27823141,-25996746,-20305807,-19133177,-18025084,-16788496,-17144321,-16532988,-17800533,-17738350,-14969044,-12625953,-13465891,-14386036,-12041806,-10039738,-8714653,-7007995,-1045537,1693319,3028997,6228389,7399518,7128473,5944038,9216115,12085092,14889404,16848524,19167162,19800911,20970541,24701710,19474016,16884941,19650112,23354557,25006168,21284630,16028635,13627234,15797231,20145929,20807146,21065166,20766031,19472635,18498339,15807651,14898501},
{-30149969,-29138735,-26584934,-23665815,-22349199,-25475973,-26916361,-25790966,-26191324,-24660175,-22444330,-21640022,-19851446,-16434538,-13585815,-9540021,-4452641,-1146249,1469060,3979778,5502637,6516966,8431522,11813325,15204138,18850924,20835217,19845457,15099728,17993074,19316263,19559481,19568586,18009300,16775564,14245283,11256440,11102459,14157391,12343757,12865333,11315036,10815169,11324111,10243036,10792907,11014462,11495115,12069228,13329413,13312996,13301275,14447657,16821951,17176802,17197454,17367098,17571217,18009100,18143909,19422215,20233095,21142765,21982952,22678825,22917536,22733526,21780212,20345245,21642992,22452890,20534191,20765606,21437580,21952892,19769989,18100407,17047253,15068981,10205463,7365886,5340557,2557990,-1216203,-4773819,-6308734,-7351177,-9598673,-10225082,-10045498,-10253338,-11085942,-11594492,-14704250,-16989283,-14229227,-18563486,-25496840,-28660608,-34146027,-42304844,-41764088,-42624161,-38232594,-37405781,-40146996,-43756191,-54485138,-61344761,-57454430,-49880817,-49639202,-50128307,-51136234,-51325253,-50500275,-49577461,-48629368,-46176861,-43724430,-41037582,-38739620,-36431141,-35274811,-34274117,-32457310,-31400454,-30824345,-28069141,-25698151,-28192789,-26753572,-25260721,-20691225,-17637995,-17155912,-14712377,-15265271,-15445248,-15840533,-15572196,-13027386,-9978191,-10075595,-12806746,-10603239,-9072736,-6734759,-2765187,2726245,4061247,6436803,9835986,10287890,11650198,12076353,13048892,15474606,17107571,18685366,21549131,22272221,22941875,22476122,18763365,17776806,20114607,23772842,25826860,22137840,17761187,14692221,15231826,20019110,21075178,21122282,20965282,19642557,18518908,15788846,14898501},
{-30149969,-29130434,-26594736,-23779364,-22484552,-25469753,-26844076,-25565115,-26137770,-24775785,-22301155,-21640919,-19931023,-16460653,-13694692,-9985465,-5721808,-2475698,402382,3010975,4585472,6406397,8996030,11717420,14430354,18327814,21549921,20451626,17603100,16841349,20163446,19449932,19310778,19036810,17601257,17116997,10562543,10800002,12487563,13391040,12637583,11026829,10041681,9592910,8956743,9081363,10041311,11273365,11937988,12438735,13412584,12090055,14511632,17014549,16999331,17124189,17166994,16869671,17050192,17175201,18101906,18985462,19844742,20436035,21197603,20838663,20006351,20031775,20352709,21062363,19579638,17839500,19352674,19260622,18034781,16947121,14288490,12782787,10194103,6284543,3854999,2672209,307712,-3098293,-6429298,-7928141,-8097130,-11992758,-12367793,-12773545,-13356218,-14445601,-15780400,-18230711,-19404341,-19459375,-23961115,-27883471,-29629997,-33358810,-41457386,-46326019,-49112263,-48196087,-45761562,-55775837,-61176102,-61686592,-57790756,-51718102,-46980507,-48728985,-49681995,-50230721,-50034836,-49352985,-48429649,-47536446,-45427055,-42721973,-40635319,-38485905,-36336353,-34587814,-33153423,-31226210,-30319067,-28916969,-28099253,-26829542,-26540182,-25318148,-24025454,-19662090,-14408852,-15153146,-12740161,-13332853,-13969746,-13594559,-12531240,-10124544,-7695242,-6745801,-8718317,-8229962,-6104225,-932186,3478495,5065059,5027676,7943280,9384382,10925488,14126439,16471525,17783331,18398273,19626259,21129690,23569410,24600256,24827419,20324402,18236950,19560165,20864836,24156029,26629934,23220295,19295973,16648146,15603935,20067354,21392551,21173491,21164848,19770573,18516932,15777136,14898501},
{-30149969,-29123013,-26610857,-23921291,-22671976,-25483511,-26716658,-25263073,-26025490,-24875551,-22183233,-21623535,-19975573,-16509422,-13718856,-10353455,-6809002,-3328436,-302173,2538010,4289232,6750165,9407812,11477294,14234749,18130970,21702047,21902834,20731386,15559416,21260603,19679041,20537703,19679342,18054848,16553223,10257385,10803004,12180666,13249326,12295475,10687744,8760132,7103176,5904556,5544428,6729911,9223128,11764216,12178123,13034714,12351194,14740089,16222092,16991606,16578428,16785049,17379524,16846197,16727148,17320263,17600025,18428112,19105089,19281725,19055569,17901936,17576794,17967964,18123604,17366486,16944460,16622694,15610388,14277867,12590446,12412746,9063116,6860316,1972692,-69805,-756311,-2535934,-4543296,-8393393,-11094498,-9928892,-14704337,-15684757,-16291597,-16896799,-17163551,-19049131,-20873226,-22296595,-23449276,-26621235,-29079325,-31113201,-35696037,-40788673,-44728886,-48730389,-48108074,-53180752,-55827076,-54904545,-53142094,-50967533,-47960804,-45905830,-46994194,-48578625,-48915344,-48675949,-48054756,-47016903,-45893223,-44098412,-41534279,-39335289,-37462219,-35433235,-33814381,-32000248,-30401978,-28949842,-27293198,-26989906,-25627052,-24639925,-23469870,-22440075,-19193419,-12661608,-12651747,-11131352,-10707137,-8114152,-9330594,-9503168,-7346495,-4755117,-3170993,-5277554,-4486495,-282272,4129222,4620368,5336171,7157387,9467948,10459901,12294945,15078073,17819525,19676132,19585539,23166763,24503340,24836861,25684929,25734106,19919647,20056355,20497433,21866268,24665188,27326132,24176435,20403099,17979259,16151190,20175474,21809317,21231474,21370541,19855812,18485226,15769216,14898501},
{-30149969,-29116549,-26633472,-24091192,-22911684,-25485304,-26506680,-24897898,-25835993,-24925245,-22060381,-21558044,-19952662,-16568766,-13692371,-10499856,-6988379,-3416125,-424458,2493345,4543962,7451416,9885805,11712260,14270342,18049864,21538145,22825251,21696955,15165682,20673090,20263075,20438389,19617126,18773111,17929245,10210499,10597544,12265553,12960214,11477377,9916876,6892287,6009764,5007538,3380409,6159952,6026890,10121473,11447282,13012763,13029812,14863359,15157958,17013229,15897998,16481140,17299292,16756756,16150694,15497801,16034040,16942255,17402246,17380798,17209137,15887587,15662545,15376599,15124578,15644252,14847433,14278762,12215204,9883017,8381123,9696866,9125379,6527855,-2445841,-3697950,-4438078,-4885263,-7459383,-10296495,-13652884,-12110576,-15159661,-17092310,-19276506,-20095837,-20082859,-20893333,-22828899,-24152893,-25067909,-27199978,-29477425,-32544880,-39875629,-41752174,-44366856,-45243919,-45920391,-48483940,-48743675,-49163124,-49303757,-48405743,-47731270,-45281296,-44829781,-46709877,-47345749,-47266552,-46893509,-45693325,-44437481,-42489254,-40019157,-37874245,-36080460,-34736305,-31608456,-29759552,-29336510,-27361629,-25551031,-24681566,-23844925,-22757505,-21358673,-19631207,-17714439,-12108667,-10004330,-9258583,-7251440,-3535542,-3184224,-5194184,-4751904,-1139558,-385160,-1339859,-1045689,5066078,5797657,6367164,7376908,9436927,11423174,12663749,14384403,16501671,18995279,20758217,21738436,25159742,25714561,25894482,26508598,25891672,21167212,21834179,21294127,22941977,25257723,27939983,24895489,21330376,18846222,16769711,20337406,22289963,21273256,21529274,19909170,18425194,15762306,14898501},
{-30149969,-29111237,-26663050,-24282820,-23189997,-25487989,-26227829,-24500139,-25558430,-24896641,-21900835,-21405830,-19838114,-16609188,-13627702,-10299964,-6606247,-3046703,409492,2971574,4889316,7989259,10592838,12576021,15024991,17811008,21141855,23339613,22266268,16241526,20254047,20852066,20449955,19502701,18107042,18375687,8418272,9587931,12044190,12300393,10619541,8972384,5566145,4384975,2960155,2183441,2882510,3980036,6223774,10198038,12203644,12340678,13110145,14279507,15265855,15249363,16417952,16853144,16206671,15056426,14283613,14128068,14586538,15144664,14860917,13221967,12628995,13112065,14162126,13211641,13426275,12080094,11000505,9257883,5495862,3095997,3742012,2093950,351567,-5172073,-4079623,-7134436,-7520559,-10890690,-12730980,-15557149,-16802139,-15355613,-18170485,-22043737,-22363874,-22304066,-22544649,-24893404,-26482582,-27339725,-28032204,-30816051,-35049606,-40118511,-44257057,-47210175,-47850307,-47212769,-47939438,-49198170,-45962078,-48704155,-46846909,-47206276,-45826088,-44116280,-45137470,-45720215,-45570969,-44859112,-43693439,-42659836,-40684162,-38251930,-36297508,-34671879,-33335823,-30583485,-29196196,-27356905,-25855021,-23849455,-22729446,-22018919,-20776695,-19019464,-16441639,-13627853,-10708814,-6764808,-5643562,-3722867,-1220817,1983412,1090510,-1747443,1814430,3821077,1862883,3011409,6024668,8101427,8780454,10232854,11984561,13640037,15237667,16387547,19132246,20650196,21933443,22984379,25495008,26550068,27019968,27307701,25438929,22447712,22618139,22167667,24086090,25907225,28458981,25612337,22263512,19811485,17231403,20486572,22809704,21278189,21590605,19940916,18348309,15754508,14898501},
{-30149969,-29107342,-26699238,-24493868,-23503304,-25459902,-25962048,-24036190,-25183977,-24770359,-21673641,-21141090,-19608419,-16601122,-13486835,-10077212,-6051971,-2664707,1269701,2376591,2831831,6690242,10140568,13192103,16158201,18179636,20540745,23331881,22089146,19987604,20254269,21031832,20396164,20066504,17557745,16171232,7032653,8133693,11427358,10693185,9197884,7380819,4033420,2072100,851142,883807,1405857,1834365,2689066,5835589,9844095,10821448,11031190,12494902,13018070,13680465,15680756,15960463,15440388,14600749,13089062,11638375,11518437,11804209,11072409,10001778,8326172,9146847,9282720,8715725,8358650,8107526,7064519,5682028,3513917,360758,-982599,-2712556,-5378642,-10255279,-7408826,-9398232,-10672947,-13926732,-15781937,-18271549,-19952848,-18166107,-19425104,-23208933,-23678444,-23539989,-23754927,-26545540,-30280655,-32431309,-32073925,-31540081,-36596680,-42155273,-45746212,-46980873,-46929829,-46198677,-47711700,-49236816,-45602341,-47489086,-45382828,-45094639,-44591530,-43540173,-43729107,-43999195,-43832813,-43164715,-41910366,-40714012,-38502331,-36441437,-34594807,-32921936,-31051756,-29101883,-27711998,-25387682,-23454136,-21831055,-20433720,-19604115,-18275297,-16035614,-12700533,-9418625,-8166221,-3567962,-1615007,82699,2170892,4632086,4439613,3060028,4215877,6900933,5982406,7844070,8192657,10689215,11433660,12889808,14167858,16230928,17603113,18425413,21006500,22837959,24827030,25022203,25994757,27660999,27561844,28048031,25624374,23433092,23990992,23293810,25454357,26862726,28988316,26330494,23200096,20793121,17588511,20606026,23265051,21205679,21543043,19946163,18271160,15744969,14898501},
{-30149969,-29105116,-26740591,-24725857,-23844791,-25401821,-25562120,-23503246,-24726290,-24532255,-21357483,-20748308,-19261641,-16509922,-13329393,-9613578,-5322527,-2007904,1930727,1182026,689749,4872072,8214215,11435839,16364265,18444523,20330011,23184591,22918934,23648211,20655064,20956860,20137266,19004982,18360777,14413477,6492909,6314240,10164207,9872416,7845420,5654259,2785251,499849,212286,474650,812619,786711,1386942,2499043,5578881,7986847,8611834,10005888,11709744,12692178,14770798,15094768,14468692,13784215,11386423,10635348,8783631,7798981,7227536,6282111,5195201,4363106,4112160,3872334,3584262,4247235,2814569,1849023,911991,-1356438,-4324733,-4127960,-7876975,-10931563,-10964906,-11963565,-14166951,-16669376,-18820776,-20576557,-20684586,-17856953,-22656656,-24117252,-24457123,-24444048,-25546244,-27817518,-31606243,-33921085,-32592743,-32552441,-38318039,-43902336,-44892181,-45792324,-45723873,-45451298,-47103134,-48641590,-46989162,-46450706,-43883904,-42715229,-42225327,-42352238,-41775852,-41545544,-41252018,-40765980,-39563046,-38192413,-36164539,-34257839,-32379436,-30646749,-28759773,-26855335,-25173655,-23016874,-20972378,-19531309,-18085291,-16494324,-15087723,-12751277,-9943798,-7921473,-6052886,-1242423,1596266,3382492,5267114,7264145,8025752,8719792,8531631,10282756,10351472,12694787,11288428,13377546,14131798,15094199,16756689,18829437,20116505,20335251,22875622,25816013,27494701,26394650,25531845,26363960,27799904,28723375,27288132,24616369,25552851,24923979,26940908,27874405,29470325,26836309,24118307,21567629,18054014,20710745,23683386,21058523,21397024,19914536,18206684,15733865,14898501},
{-30149969,-29104706,-26785765,-24975395,-24202078,-25316311,-25077326,-22945314,-24201206,-24186457,-20944815,-20231255,-18801382,-16307632,-13233186,-8982270,-4459877,-884994,2082564,247151,-587046,3569040,6729038,9223742,14524631,16447783,19177116,23124487,23611633,24084166,21135315,20735655,20096878,18454157,17577074,13501425,8580873,4933433,9099777,9716457,6286418,3561004,1235594,-457846,-416762,-118563,62847,154668,371893,962778,2109885,3692197,4596978,8423183,9464726,10412192,12695972,13271384,13025165,12998770,10168901,9847197,8523289,6066889,4807886,4275857,2187999,-229416,-774194,-899955,-793548,-1193516,-1191697,-884023,-2484578,-3643276,-6078198,-5861580,-8245148,-11286135,-12845917,-14721818,-16405380,-18345085,-20546162,-21871403,-21964577,-19934206,-22198202,-23834314,-24977139,-26214886,-27789507,-30331461,-33040867,-33407528,-31706228,-33024849,-37440365,-41553024,-44593060,-45213436,-44812275,-44530361,-45671082,-46808647,-45940353,-43946922,-41602264,-41174110,-40905823,-40472828,-40038494,-39042389,-38571091,-38026722,-36314869,-35181351,-33485680,-31859888,-29984514,-28140289,-26258717,-24653202,-22188141,-20163601,-18249140,-16610971,-14967237,-13447044,-11616532,-9605489,-7771544,-6274148,-2758676,3629810,4522637,6794474,7942908,9298312,10893237,11275138,11961673,12370342,13659556,15225121,14368527,15855782,17191330,17655931,19417223,21191349,22074396,22618452,25399212,28245174,28386475,26898424,25588261,23743425,27966181,28482059,28913462,26033287,27115616,26812029,28199089,28642878,29811119,27220650,25057833,22372667,18190210,20893362,24085791,20841284,21180859,19849901,18156233,15722260,14898501},
{-30149969,-29106087,-26834734,-25237032,-24565165,-25186014,-24521420,-22374731,-23623880,-23749327,-20445148,-19602795,-18248257,-15983157,-13099846,-8152123,-3644450,65862,1702961,-237637,-951788,2980846,6190151,8235196,12830822,14002749,17580732,22464315,21829895,22930557,21549694,20806189,20023504,18996214,17190119,13969387,12031764,4951789,7557527,8582009,4509088,467054,172404,-1344757,-1473344,-1200576,-983856,-806470,-431585,-210531,453314,1480949,2319837,4430120,7502310,8789918,9530851,11037373,10849482,11129493,8990668,8824693,8116802,5266440,3576179,2526635,483631,-1523882,-2977998,-3884961,-4884011,-4009126,-2635513,-3045630,-4439988,-5222685,-8063114,-8435005,-9968947,-12141021,-13472982,-15230356,-17332834,-18948902,-21087032,-22827295,-23937540,-22522505,-23209635,-24305649,-25463284,-27106970,-28716471,-30803333,-33387062,-33991867,-32505177,-34185455,-38623745,-43550659,-44802406,-45103977,-44532959,-44107502,-44216965,-44246262,-44088211,-42057652,-40524689,-40360237,-39741455,-38504265,-38330166,-36747166,-36315784,-35408020,-33543274,-32534901,-30838551,-28994896,-27404041,-25709396,-23719006,-21528545,-19514517,-17460035,-15677032,-13272344,-11362803,-10153566,-8692647,-7017060,-5509109,-2108828,2903081,6286278,7636952,8627594,9675434,12086272,12715537,13388792,14414730,15131625,15544847,15740818,17037802,18671497,19025328,21033707,22034279,23562864,23630785,24599045,28429550,27715290,29966902,28641422,26204281,22524025,26385330,26831312,30427448,28364780,28429234,28548067,29089987,29432362,30003836,27619001,25991995,23164398,18668219,21162043,24420607,20591290,20930700,19772533,18107349,15711884,14898501},
{-30149969,-29109076,-26888514,-25507591,-24922533,-25006701,-23920458,-21825277,-23031857,-23240526,-19876566,-18902372,-17638060,-15531731,-12555769,-7379282,-2906825,837709,1435343,-390337,-950739,3050799,6071552,8198853,11465393,12909914,16488478,21449228,21221989,22736357,21388460,20672754,19568443,19275372,17513710,14658086,13764327,5778951,6452177,7104404,3530900,-131829,-787556,-2040631,-2382953,-2242523,-1851826,-1687238,-1326851,-1030944,-449269,-116531,808162,2423301,4280751,7703657,8417858,8125725,8300804,8490482,6400284,7234419,7256804,7068612,4951753,2164362,-1372969,-2491021,-4371921,-5789037,-6255522,-5492539,-4253951,-4180349,-5019762,-6466521,-9906323,-8941932,-11490931,-13071559,-13495193,-15372024,-16968481,-18487459,-20612392,-22397406,-23818735,-23596869,-23503281,-24496576,-25275120,-26632484,-28124491,-30486813,-32761250,-34333504,-32400177,-39034935,-42994793,-43735348,-44648079,-44796955,-43810883,-43508854,-42962662,-42447147,-41906666,-40354759,-39024872,-38754704,-37630161,-36184628,-35785187,-34176720,-33587097,-32595600,-30740234,-29518967,-27808170,-26201569,-24337524,-22778677,-20736778,-18340900,-16298521,-14969481,-11996512,-10374860,-8301603,-6842394,-5632859,-3959688,-712331,4144754,8608413,9990458,10531492,11232180,12881272,15211643,16465551,16107868,17341415,18926727,17572912,18255947,19795376,20879200,22452238,23159618,24679535,25343967,25395000,28504631,28509523,27727739,31983389,30230301,27142441,22790302,25563967,27774672,32827793,30584917,30275265,30005280,30069214,30159668,30212244,28058733,26789333,24000008,18777744,21452768,24693808,20348309,20682575,19702040,18040432,15704877,14898501},
{-30149969,-29113380,-26947813,-25782856,-25268000,-24789673,-23293085,-21310509,-22444115,-22690845,-19273462,-18171124,-17011076,-14968451,-11713987,-6944234,-2334403,1413624,1143955,-353048,-360634,3452204,6117788,8228139,11076657,12533772,15892888,20429018,20894089,21905117,20280981,20653532,19513790,18475822,17349012,14554791,12187583,6610693,6083966,6119932,3021522,-355175,-1525567,-2840663,-3192759,-2610102,-2076188,-1975977,-1975616,-1746065,-1749936,-1598614,-1109596,-289412,1463511,3379197,5689935,8328779,5805052,6012325,4700312,6441216,6619143,6503913,5207087,2705652,4912,-4635548,-5773314,-6996608,-7768037,-7649177,-6305998,-5349312,-5721394,-7517259,-10419472,-11801199,-14545630,-16382374,-15331560,-16514053,-17621540,-18426371,-19675520,-21232607,-22708475,-22595978,-23410507,-23183315,-23961245,-25752092,-28491890,-31124067,-33637810,-33687603,-35650665,-39866493,-42943382,-43050880,-43865223,-43732635,-43156940,-42575291,-41941143,-40968464,-39729961,-38725254,-37412613,-36877357,-35432541,-34023006,-33435875,-31229944,-30489809,-29277973,-27537893,-26188824,-24644779,-22743845,-20749619,-19154732,-17340490,-15465104,-13013758,-11037946,-9081692,-7093338,-5251515,-3569666,-2203551,-881512,3808847,9847045,12162750,14119131,13663218,14268588,16409901,21564884,22031656,20013998,20798061,20706549,21065981,22088306,22940235,23812784,24700401,25581984,27011282,27615154,28580257,30022469,29773064,29491457,33268867,31258350,28641624,25178055,26778460,30075253,34254108,32335663,31832607,30949753,30776773,30636082,30466043,28587568,27350159,24645481,19655350,21778681,24855326,20162899,20470829,19646719,17942089,15703509,14898501},
{-30149969,-29118706,-27012209,-26058422,-25585281,-24517969,-22654327,-20865952,-21885786,-22127295,-18688055,-17454546,-16409372,-14379905,-10923584,-6551676,-1867276,1943179,946784,-310897,260492,3850832,6549874,8317991,11050383,12678489,15765246,19871317,20853525,20713621,20318926,20153194,19530296,18338217,17894312,14669535,10402632,5234305,5469171,5560335,2310310,-327616,-1839802,-3613580,-3636924,-2916173,-2144537,-2051554,-2536949,-2511914,-2659779,-2695335,-2430717,-2162604,-1456636,-223694,2060534,4580669,4781230,4514539,2970636,4719093,6040114,4146638,3985826,4219412,-255625,-5071599,-6350879,-7327363,-7835155,-7443964,-7643038,-8003078,-7827366,-9639445,-10701081,-13772644,-17215097,-18829937,-19113012,-19585236,-20600084,-20248405,-19854246,-21081907,-23522390,-23770430,-23585327,-25280081,-25927502,-26971218,-28721630,-31106718,-32149582,-36658661,-38528168,-40203465,-41904514,-42185745,-42592831,-42427765,-42385303,-41223751,-40223778,-37765976,-37375523,-35623848,-35079575,-34179665,-32793415,-31096266,-30371151,-28630697,-27656610,-26218637,-24281975,-22751860,-20845619,-19245090,-17506552,-15436948,-13819719,-11707681,-9268289,-7848180,-5587487,-3948154,-2305185,-618790,1049519,3588036,5892537,13770927,15940945,17267845,17793690,17268242,20422770,23632299,24061283,23706112,22134827,22818171,23769711,25230415,26098396,26808052,27129236,28045734,28821737,28986879,31217495,32584637,32457054,32908394,33967682,33280788,31352194,28015272,29071095,32213707,34818085,34064846,32945835,31918627,31401031,30829306,30732500,29135838,27763941,25085539,20483076,22198366,25000683,20103434,20308321,19612574,17816269,15709904,14898501},
{-30149969,-29124868,-27080576,-26330746,-25865803,-24205837,-22017149,-20392620,-21395805,-21591873,-18142666,-16804941,-15875997,-13663265,-10208773,-6358335,-1460235,2301395,876792,-408544,631010,4155402,6801279,8652846,11076579,13438547,16653196,19578264,20728245,21063520,19401691,20552475,19414207,18704836,18014009,15309259,10546130,2870284,5371032,5811010,2292994,-454399,-2193810,-3937439,-4003220,-3223913,-2234729,-2285808,-2757615,-3048642,-3487609,-3465756,-3257698,-3221371,-3278576,-3045680,-1023003,-405418,-843841,829336,3263215,1967220,2091895,848444,2801433,2486407,-1117549,-4857771,-6414555,-7122069,-7522698,-9911428,-11614748,-11248393,-10731684,-12264273,-11792939,-12758838,-14691688,-17374411,-18745108,-20914972,-23564337,-23659597,-23551289,-24295286,-25833424,-24485498,-24895821,-25496117,-26918941,-27903515,-29381845,-29489590,-29634089,-35093376,-38172997,-40134380,-41497784,-40915787,-40989716,-40837006,-40738621,-39376041,-37919796,-35187218,-34501297,-33464993,-32486107,-31576754,-30086237,-28227526,-27248714,-25511108,-24317543,-22358391,-20761677,-19064850,-17277241,-15522111,-13797782,-11975984,-10186519,-8266184,-5872486,-2407749,-2743333,-991612,636914,2427029,4606147,6984759,10155636,17000120,17747971,20058044,20109638,20608410,25089846,22251429,23146469,24407595,23919771,25460594,26709728,28089899,28633387,29589655,29908405,31007229,30791735,31436848,33343784,36968811,36103008,36690887,36310772,35798237,33724396,30722660,31679455,33705952,35901302,35751476,33843784,32559132,31868788,30793676,30815552,29653734,28343054,25896376,20981194,22731396,25096252,20166956,20201817,19600651,17683487,15725748,14898501},
{-30149969,-29131847,-27151995,-26593485,-26113409,-23837936,-21386829,-19974745,-20983595,-21098433,-17680010,-16248209,-15434560,-12921677,-9571712,-5987949,-1258110,2285357,508797,-519006,634794,4142535,6974223,8808649,11408798,14360404,16804090,19348383,19977316,20623129,18083281,20577557,19925871,19313105,17715576,15992487,11962802,4927623,5037490,5926015,2528774,-590464,-2813776,-3979906,-4045177,-3669631,-2652929,-2542055,-2883699,-3622387,-4207256,-4193300,-3802689,-3943680,-4342258,-4996330,-3416064,-2682110,-2544906,-3146708,775617,1347036,1597741,1339524,461800,-1745237,-3346491,-5465709,-6480394,-7074555,-8884192,-9817316,-11807364,-11973475,-12345830,-14417690,-15289724,-15646786,-15963600,-16303890,-18479837,-20359943,-22020542,-23617634,-24332476,-24263432,-24628134,-26152086,-25592871,-25534708,-26865908,-27196573,-28423298,-28985147,-30112730,-34754131,-37514671,-38970425,-39796852,-39158310,-39342754,-38907753,-38043003,-36606968,-35008286,-32754021,-32428593,-30907530,-29842060,-28449423,-26958797,-25684772,-23728985,-22375942,-21213936,-18726055,-16965549,-15151041,-13629092,-11908581,-9999137,-8353699,-6640096,-4580384,-2665071,-682326,268658,2010715,3676732,5116040,7353176,9622294,12153370,17740881,18449160,21417192,24005075,25475210,27375952,23531244,23644054,24928402,26422602,28378124,29779663,30664394,31063395,31835817,32604240,33756149,32514641,33220512,37306751,41100742,39969765,40106377,38970123,38823536,35723213,33348518,34022526,35349789,36692524,36815781,34509632,32998081,32185757,30877363,30977158,30277590,29054920,26964552,21258097,23237919,25221294,20323496,20151684,19579210,17567745,15752048,14898501},
{-30149969,-29139805,-27226177,-26841755,-26320812,-23425543,-20785524,-19715300,-20628868,-20675817,-17314234,-15796494,-15133993,-12283992,-9011660,-5781293,-1090795,2017559,-124840,-640356,722719,3902032,6909494,9018477,12087570,15025464,17259680,19293404,20919706,22744486,18740665,21041828,20456017,19305468,17748230,15588894,13802938,7857712,4300723,5400164,2354992,-755586,-2916308,-4052145,-3830617,-3932019,-3203920,-3042820,-3420269,-4233935,-4909911,-4777342,-4418423,-4654172,-5111064,-5683167,-4902940,-3998334,-3711029,-4992262,-3761688,-2965222,-1500604,-2555059,-2781252,-1657830,-3241202,-3938955,-5185687,-5266982,-7526153,-8550388,-11223065,-12586652,-13156601,-15104830,-16522745,-17856991,-17927307,-17150507,-19036648,-20965553,-22941473,-24365103,-25463926,-26078981,-26424063,-26518040,-24877260,-25186949,-26228128,-26300161,-29797764,-30722658,-31232813,-33918911,-36086044,-37275776,-37139629,-36853245,-37133411,-37085094,-35153252,-33535828,-32017540,-30758282,-28749315,-27726149,-26765894,-25410480,-23829060,-22521469,-20774914,-18883553,-17405298,-14640804,-13285199,-11619802,-9721956,-7937941,-6416870,-4679237,-3043268,-985373,909365,2310066,4047009,5344398,6569681,7867196,10308290,12197406,15523291,18889278,20941010,23791861,26346560,27749689,29529228,26713442,26092377,26899885,29026463,31292055,32429043,33996635,33930847,33938538,35115795,36338543,35677254,36053188,41080097,44816746,43481800,43226265,42038719,41503075,37888634,35554283,36217682,36702587,37255177,37009258,35191040,33592094,32551895,31058710,31499460,30834005,29790663,27981829,21761328,23827682,25406185,20560383,20148472,19494200,17482258,15788943,14898501},
{-30149969,-29149012,-27303219,-27075935,-26477362,-22966986,-20212904,-19528749,-20354059,-20322695,-17054813,-15446267,-14908934,-11853114,-8474607,-5287877,-937884,1329420,-737725,-786273,851673,3736353,6946166,9029037,12482068,14813398,17244377,18602858,22502909,24234734,16189169,20868286,20427311,18879265,17349377,15717055,13684357,6280226,4110767,5754807,2479894,-448596,-2835609,-3951572,-3757014,-3798467,-3443159,-3527107,-4244597,-5060165,-5567505,-5346578,-5074912,-5191154,-5544527,-5871598,-5520760,-5011776,-4844244,-5989375,-6224337,-6181372,-6051162,-6756196,-5679312,-3886735,-4631011,-2761499,-2683396,-5419293,-8205909,-8887567,-11019767,-13524477,-13613130,-13129287,-13312244,-13667533,-15820471,-16400911,-17708723,-20675850,-22992617,-24221983,-25295851,-26578739,-27937422,-26831757,-25947266,-23432896,-24691448,-26552025,-31447510,-30675310,-31790827,-32821712,-34330967,-34827232,-34285885,-34794304,-34716412,-34821445,-31855864,-30257351,-28792883,-28106831,-26526031,-24886242,-23762253,-22774324,-20308645,-18473858,-17159126,-15513973,-12948500,-10767353,-9662497,-7976521,-5766263,-4017338,-2410621,-449168,680171,2758208,4404078,6193111,7347917,8505059,9567509,11361417,13624374,15756427,18050323,20554184,23685955,26562838,28969511,31878946,31624340,29208122,29358171,30400452,31828148,33844727,35437351,36532890,36573467,36606987,37872334,38146141,39457867,38169899,44631447,47390331,46619972,46006397,44075890,43230179,39755939,37401684,37750084,38086998,37810360,36956627,35759270,34476013,32756237,31622475,32053860,31265059,30508636,28781340,22934240,24455421,25568760,20863892,20203455,19341768,17426313,15835630,14898501},
{-30149969,-29159731,-27383066,-27292913,-26571562,-22474293,-19677876,-19412800,-20150505,-20038008,-16887712,-15204072,-14751518,-11454409,-7969035,-4643769,-954295,690974,-1251898,-868170,982475,3652055,6674993,9533481,12599563,14423493,17043406,18949924,22842436,24641968,15559952,20856455,20171614,18962584,17341982,15778416,13388566,4014548,4666147,6276099,3294385,85470,-2198530,-3272886,-3522633,-3667390,-3905141,-4242181,-5188490,-5906971,-6226872,-5943933,-5651563,-5664880,-5880068,-6160712,-5822670,-6051058,-6125832,-7781453,-7200095,-7883410,-7786552,-7888241,-9549604,-5967584,-5055353,-3240609,-2804766,-4006327,-6837974,-9821214,-10703827,-13217789,-13509632,-12106791,-12247010,-12751125,-15683824,-17141319,-16187408,-18905603,-21564278,-23143904,-24262854,-26263222,-27517710,-27527388,-26174765,-22183359,-23280411,-28291876,-29521229,-28786983,-29744827,-31101629,-32106937,-32242268,-31771687,-32274300,-32184620,-31000631,-28746763,-26784843,-25718569,-25714727,-25221436,-23974840,-22538340,-20683140,-18136143,-16366102,-14298334,-12546401,-11184590,-8036043,-6346968,-3695456,-2190738,-304742,1495661,3015443,4737520,6599820,8061682,9432426,10853692,11977007,12702930,13893857,16202204,18474859,20454979,22878485,25775167,27979143,29862179,35137119,35016872,33160915,32389076,33593369,33948433,36224182,37778969,38827377,39228367,39644676,40397877,39897034,41300743,41892460,46923721,49528297,48955894,48023304,45707985,44899387,41707195,39150524,39093578,38817902,38438496,37456306,36476936,35413162,32964096,32511585,32596436,31812101,31178850,29413755,24435129,25030825,25619200,21204071,20311279,19196211,17394125,15890419,14898501},
{-30149969,-29172113,-27465204,-27485773,-26603586,-21950350,-19176897,-19361235,-19977776,-19817436,-16823782,-15044317,-14726073,-11140676,-7374639,-3987777,-1118237,-279915,-1667069,-839632,1202241,3673783,6680122,10188811,12638921,14308388,16868471,18698696,21928596,24836594,16238792,20280716,20073799,18681787,17387678,15694479,13196660,3798053,5103592,7723974,4488544,821034,-1431562,-2696357,-3753714,-3726609,-4758847,-5288984,-6184153,-6797052,-6706287,-6481345,-6288673,-6140882,-6333201,-6860002,-6627563,-6870121,-7510347,-7900976,-7662972,-8498799,-10243738,-10394945,-10790166,-10209887,-6196213,-4861610,-3553630,-3256248,-5670869,-9237302,-10159053,-11971229,-12488579,-12961461,-12935718,-14178398,-16329010,-17049194,-15004623,-17208139,-20297194,-22201546,-22933542,-24258818,-24679197,-23948154,-22483490,-22554123,-25120728,-27076405,-26720690,-26952549,-28463305,-28440742,-29423944,-29874193,-29691225,-29250639,-28781061,-27764721,-25524399,-25105188,-24524244,-24600582,-23548229,-22243042,-20613667,-19051474,-16818460,-14733416,-12910456,-10563709,-8315801,-6126700,-3506369,-504304,1525697,3669776,5381513,6968446,8421408,10199965,11459745,12946211,14234989,15658051,16297195,16972958,19359379,21143301,23182596,25767685,27855001,30071564,31686018,36188419,36289188,35424160,35267586,36197762,36506027,38855515,40037514,41006279,41439198,41323597,41869545,43349903,44132946,46357407,48204842,50734756,50408665,49151134,47519882,46494934,43546665,40527206,40195328,39463848,39139214,38210152,36769043,35782276,33621964,33284397,33037159,32471546,31740019,30159212,25694719,25303490,25606363,21561199,20451618,19135374,17384768,15950939,14898501},
{-30149969,-29186123,-27548777,-27654203,-26579344,-21409088,-18710714,-19343470,-19835842,-19642729,-16871590,-14928778,-14713735,-10893182,-7026844,-3385595,-1184294,-1825861,-2138552,-746878,1395315,3759466,6772740,10048495,12477480,14528528,16595600,18262169,21812109,24169195,18327122,19596428,19821955,18254848,17242723,15517262,13642386,5375841,5422491,9140923,6113702,1632732,-1104681,-2938160,-4453259,-4527400,-5372336,-6195938,-6932287,-7323606,-7129177,-6923335,-6673049,-6629023,-6719888,-7108341,-7047347,-7532015,-7534927,-7845833,-8114001,-8763143,-10150252,-10161887,-10380003,-11407135,-7783703,-6062710,-5063263,-6310779,-9032722,-10784696,-10098598,-11529884,-12216733,-12425708,-13470309,-16045670,-15972894,-16714540,-16878107,-14968257,-18118515,-20493179,-21245684,-21965998,-21692410,-22155764,-20058783,-22860888,-24926111,-24912119,-24521580,-24920179,-25538801,-26360014,-26981665,-27417234,-27686710,-26090239,-25273672,-24751465,-23779015,-23402052,-22909195,-23126089,-21806639,-21126333,-19155464,-17240000,-15012235,-13234467,-11406299,-9015320,-6850384,-4218904,-1588221,781492,4099614,7002310,8708625,10623497,12116844,13883553,14962065,16476957,17984690,19392231,20028879,20617496,22660707,24205168,26028030,28373009,30296709,32149952,33656967,35577694,36873253,37338772,37798092,38610283,39317219,41400677,42414501,43184628,43519989,43706070,43579235,45458946,45801807,45824120,47204830,48907822,50250202,49264534,48764050,47604095,44971867,41840973,41596550,40464130,39886940,39153843,37350967,35931187,34461700,33879536,33388279,33074406,32246056,31105162,26574064,25566927,25600601,21909523,20619678,19174093,17403019,16014452,14898501},
{-30149969,-29201540,-27633009,-27799997,-26496700,-20843948,-18281725,-19329832,-19686531,-19497473,-16992365,-14886786,-14659349,-10887687,-6404714,-2801093,-1324013,-3168538,-2641275,-749671,1693890,4108408,6994218,9916352,12177711,14487152,16592913,18389259,20893602,20351019,19851538,19535393,19479872,18230179,17507223,16035194,15130646,6148008,5414785,8082297,6357392,2162360,-1209933,-3441798,-4770348,-4957347,-5958385,-6727301,-7354428,-7477903,-7352702,-7101796,-6904403,-6981969,-7042084,-7460327,-7435571,-7435839,-7258529,-7883054,-8956140,-9039765,-10761712,-9947608,-10001911,-10999519,-8460489,-5783355,-5893617,-7071851,-6893297,-11248573,-9497820,-10284523,-10298834,-11408882,-14138539,-12198945,-13476023,-15435452,-15682354,-14328193,-15605032,-17825550,-18473391,-19420681,-19508053,-20147606,-19065605,-22156139,-23264332,-22554144,-22027065,-22803019,-23043674,-23745304,-24151438,-24616938,-24829586,-23077007,-22036289,-22067286,-21959522,-22110046,-21287146,-21116671,-19989799,-18940523,-17540226,-15654849,-13768513,-11737467,-9786731,-8000475,-4909932,-1972217,768113,3397888,5946958,9130071,11476212,14623788,15897917,17411734,18869179,20070724,21856176,22796099,23592037,23797316,25739471,27150620,28935427,31220499,32958923,34318977,35455467,36361534,37572529,39348179,40071785,40756416,41675632,43762302,44512802,45310734,45437237,45553555,45550415,46587173,47882366,48505005,46406029,46550144,48069145,47869667,47881920,48028889,46116436,43334000,42784729,41372749,40517456,40040615,37548901,36453613,35232063,34315025,33700592,33573864,32658314,32010223,27793961,25850077,25489059,22222267,20801874,19284239,17452044,16078207,14898501},
{-30149969,-29218033,-27717487,-27919165,-26357063,-20265528,-17881966,-19295357,-19540459,-19361420,-17152021,-14868924,-14533680,-11071175,-5929565,-2239345,-1815800,-3996380,-2877530,-873093,1825643,4271729,7390591,9701294,11950958,14287325,16550556,17737377,18970308,17774740,20682175,19537830,19381580,18619810,17792952,16518179,15213949,4389139,5286304,6879430,5814516,1919931,-755271,-3553798,-4888647,-5128104,-6401459,-6962159,-7202988,-7426681,-7224095,-6982864,-6749576,-6893055,-7106803,-7196154,-7177001,-7531544,-7802330,-8721913,-9176355,-9141844,-10783292,-11073351,-10975639,-11538640,-10027852,-5839497,-6183536,-7115222,-6119731,-8958121,-9610772,-9007345,-8504667,-9762555,-12410686,-12337416,-12063964,-12681050,-13173496,-13427349,-12170609,-13195648,-13827134,-15243233,-14612873,-16140001,-16125179,-19833866,-20493101,-20187645,-19780018,-20580652,-20628723,-21152514,-21367994,-21896528,-20923933,-19511660,-18742622,-20198303,-20086435,-20003345,-19532003,-18814274,-18212383,-16758053,-15628654,-13830932,-11705447,-9994443,-8227039,-5565177,-3333296,-328790,2467132,5362500,8127638,10948752,14280757,17783173,20382793,21276663,21971800,23591671,25058043,26406544,27095860,27071051,28867901,30392347,31963652,33882435,35161140,38305161,37703602,38396923,39757668,41379120,42159882,43100708,44790195,45593586,46683960,47383034,47453552,47338757,47306126,47547417,48185169,48716328,49977779,47895859,46048397,45011375,47665974,48282940,47025799,44839870,44060585,42587494,41441227,40880894,37853741,37088120,36039207,34814610,33997189,34039310,33059498,32867302,28926325,26208567,25450943,22504368,20974497,19432390,17527061,16139786,14898501},
{-30149969,-29235275,-27801991,-28009684,-26166016,-19691595,-17527786,-19220913,-19355167,-19224485,-17321434,-14864326,-14302729,-11179167,-5690394,-1694225,-2267575,-4852582,-2883226,-1010217,1662154,4433331,7661772,9544747,11699173,14412554,16298906,18188801,19040041,20467684,21224813,20251715,19484669,19026014,18335505,16538885,15344894,3552061,6186344,6330842,3526630,1692612,-410807,-2965717,-4416292,-4953237,-6265559,-6742081,-6905598,-6876698,-6696538,-6494393,-6468815,-6684795,-6723265,-7007236,-7204800,-7289186,-7200925,-7661478,-8466799,-8491451,-10617343,-11262843,-10835702,-11297679,-11353114,-10326062,-7094954,-8220434,-7402294,-7879107,-8640890,-8450610,-9214503,-10381071,-9855237,-10701348,-11958254,-12288940,-12264549,-12298589,-10896194,-10575311,-11068918,-11947070,-13494098,-13077896,-16164366,-17927919,-18633282,-17939571,-17358477,-18009069,-18023529,-18389294,-18800983,-18802891,-17695250,-16151770,-16906801,-17922083,-18714249,-17859840,-17384050,-16899595,-15752377,-14774891,-13555533,-11772998,-10014731,-8113241,-6009140,-4033468,-1196384,1312495,3934598,6785290,9858403,13110797,16568222,19522116,23334387,25227779,25677195,26865385,27981302,29477999,30650757,30538837,32499008,33550297,35030788,36660122,37705154,39651779,40195053,41130539,41932907,43305058,44342285,45376534,47122971,47638821,48889896,49673813,49379726,49006691,49022640,48888054,48924000,49078487,50015984,49622993,46356480,44468918,48378078,48790539,48014629,46251301,45224407,44188263,42806896,41423023,38059135,37498573,37061337,35397362,34354431,34450958,33514034,33696815,29540543,26495539,25339851,22758228,21094461,19585571,17616337,16197330,14898501},
{-30149969,-29253044,-27886190,-28073669,-25927322,-19123444,-17208078,-19086023,-19101345,-19064785,-17471239,-14865876,-13989306,-11245005,-5475987,-884740,-2723587,-5608351,-2853956,-1083720,1640456,4458531,7554896,9378514,11797596,14242207,15865644,18767172,19876270,19820362,21437107,20531778,19990181,19538361,18451159,15896532,17385899,3588700,7073764,6672240,3272568,1777364,-314148,-2791572,-4015837,-4555326,-5721460,-6149322,-6181908,-5970341,-5939208,-6160531,-6356494,-6451407,-6640851,-6855322,-6842880,-6879808,-6797703,-6922672,-7019297,-7653111,-9699910,-8921098,-10840856,-10383263,-10437810,-10724907,-10215655,-10977110,-10108914,-6663738,-7416492,-8375600,-8677405,-7606511,-8836163,-11011021,-11676131,-13354856,-12317958,-11165456,-9722458,-9978720,-10182807,-9265243,-9723594,-10708448,-15892885,-15989055,-16702751,-15556525,-15075892,-15239379,-15318554,-15641076,-16198107,-15558171,-14422668,-14145563,-14918841,-16423826,-16894798,-16317152,-15490890,-14581402,-13247399,-12560200,-11270503,-9858013,-8150895,-6115531,-4142265,-2089604,286602,3313171,5872019,8585321,11348207,15074867,18317724,21780941,24699289,27793118,29496822,30702335,31543125,32636993,33725368,33380211,35464180,36880676,38482327,39846153,40827610,41538422,42334675,43413670,43892330,45121849,47048454,47789051,48810703,49785763,51348934,51951759,51581615,50941689,50810482,50335316,49962513,49900253,50390476,50196205,49825581,45832352,49494492,50118946,49408424,47635448,46618965,45592503,44062035,42205776,38650852,37953655,37973701,36159420,34700626,34842602,34031967,34284195,30116301,26937527,25082428,22984219,21134430,19716917,17707355,16249641,14898501},
{-30149969,-29271284,-27969706,-28110176,-25635565,-18557692,-16902828,-18880056,-18765200,-18881876,-17584450,-14872279,-13636407,-11525794,-5385324,-270371,-3294829,-6244567,-2928726,-1039113,1683386,4653637,7639011,9127018,11542565,14121597,15673409,18077494,20714529,21844547,20379288,20595020,20163340,19816376,18619986,18538950,18765703,6053529,8572520,6984509,3497432,2292275,-60466,-2663022,-3522512,-4030680,-5238256,-5406941,-5093446,-5025427,-5010931,-5680096,-5869111,-6008167,-6239680,-6218168,-5807588,-6280554,-6079799,-5062940,-5806345,-7685178,-8696286,-9081144,-9768438,-9144786,-9486646,-9540081,-10126377,-8901365,-6498357,-5725366,-5699892,-10923228,-7522814,-12915146,-11454164,-11304807,-10800660,-10870393,-10612421,-9597580,-8130657,-8633188,-7267561,-7871306,-8241388,-11583183,-13439608,-14381460,-14607190,-12817401,-12722412,-12368834,-12653988,-12829967,-12939001,-12475190,-12098402,-12052060,-12785879,-14564412,-14531123,-14468956,-13512304,-12534270,-11083680,-9800021,-9260612,-7599963,-6060593,-4053929,-2136793,-291304,1925387,4832661,7613338,10233042,13318636,16349514,20390776,23704487,26630289,29941481,33029766,33881298,34611107,35615582,36754833,36408260,38259823,39890045,41710403,42810474,43658821,44328518,44718319,45401844,46253483,47263367,49416641,50073383,50658840,51518990,53434155,54200974,54023037,53131207,53011635,51852448,51201473,51238579,51072033,51138588,52038956,48150013,49134808,52104931,51104485,49292133,48067120,47058071,45186073,43374012,39469639,38653046,38855988,37061836,35246223,35125198,34493622,34550198,30787596,27436855,24985760,23163363,21129143,19814953,17791929,16296148,14898501},
{-30149969,-29290100,-28052431,-28119432,-25297850,-18017979,-16625578,-18597151,-18375706,-18676834,-17633142,-14884386,-13252441,-11953772,-5449482,294383,-3742588,-6352724,-3141237,-1028183,1608667,4672761,7488774,8950477,11313354,13694984,15351724,17697689,20824282,22259577,20682701,20868774,20407986,20349812,19175371,21392437,18406878,9949527,10636435,7972076,4214872,2817376,674209,-2100206,-3004056,-3440866,-4365900,-4248746,-4099341,-4216018,-4198543,-4611334,-4926787,-5163043,-5358966,-4978822,-5032688,-5015821,-4329809,-3419390,-3967074,-5867856,-6967723,-7760972,-8485118,-8571650,-9181561,-9348009,-9587565,-9833769,-9147052,-10327766,-10239484,-8979606,-13396539,-13397559,-12678110,-12151391,-11843960,-10339753,-9176026,-7636965,-6302169,-5849928,-6384301,-6967859,-9342956,-11287335,-12501702,-12086708,-12666846,-10366962,-9751991,-9535283,-9870241,-9802962,-9742450,-9310032,-9422495,-10059182,-10712612,-12136680,-12795355,-12739741,-11194391,-10094119,-8091722,-6839876,-5994605,-4927538,-3469609,-1721080,177357,1725194,3374886,6432102,9305406,12155076,15033857,18241493,21873075,25310055,28362347,31648458,35031075,37359299,37828159,38564163,39416309,39145031,40855011,42324631,44149002,45133110,46049812,46587673,47000145,47670940,48793205,49536026,51151752,51785999,52710350,53848476,55623562,56222298,56133560,55417854,54771915,53575745,52654419,52532280,52152042,51963722,53663223,51403538,51043869,55280109,53523411,50929672,49275963,48139763,46842106,44863976,40892376,39196808,39321304,38121834,35963852,35393391,34976349,34627689,31139637,27991749,25153841,23331633,21099604,19876757,17866882,16336756,14898501},
{-30149969,-29309677,-28134512,-28105848,-24929743,-17507214,-16378187,-18244755,-17921850,-18451723,-17603096,-14903151,-12802354,-12285174,-5735072,656060,-3545395,-6056478,-3288445,-1113284,1500353,4481254,7405761,8949510,10929943,13550452,15213075,17725904,20026190,21231174,21658340,21687880,21291517,20857889,19290586,22464689,16959923,11307103,11120736,7882732,5131894,3326121,1508263,-1249340,-2312783,-2876375,-3138781,-3170824,-3140279,-3191598,-2980211,-3615272,-3906734,-4024465,-4040683,-3944389,-3649253,-3026456,-1607703,-343192,-1370722,-4154590,-5359503,-6594630,-7184778,-7658484,-8530392,-8398769,-9343509,-8338703,-7577794,-9009653,-3884168,-8649529,-10964355,-11680385,-12238693,-12278256,-12285357,-10433742,-9345141,-6957819,-5306256,-3844114,-4949224,-5879777,-5547804,-10083034,-11563914,-9462490,-10509264,-7773387,-7569405,-6746052,-6758137,-6755170,-6810009,-6453105,-7055376,-7759786,-8622103,-9988766,-10700111,-10551967,-8923392,-7640053,-5172156,-3992706,-3279748,-2075446,-829120,1021449,2890957,3971050,5377045,7926320,10776323,13814016,16980188,20069994,23504526,26735584,30008038,33376842,36569370,39734570,40984261,41785366,42236217,42559109,43514095,44909512,46171272,47537827,48618893,49004467,49377216,50053192,50596806,51721363,52769375,53260258,54238808,56596439,58084755,58703159,58252613,57562424,56594704,55554680,54273300,53826717,53216679,52681591,53762592,54210918,52939426,56561325,56023106,52511574,50813351,49134129,48079643,46188564,42493702,40202919,39968597,39070988,36670788,35810040,35606121,34651119,31551008,28245178,25462793,23530346,21040482,19899792,17931705,16371666,14898501},
{-30149969,-29330175,-28215853,-28069530,-24530140,-17036579,-16160913,-17825136,-17428932,-18222284,-17480053,-14914429,-12328892,-11962785,-6154389,791066,-2731291,-5675610,-3346997,-1166266,1301766,4210517,7295847,8919141,11008335,13020254,14893956,17435055,19243820,22268509,23218525,21965115,21534344,21298752,20231836,21785740,11710100,12516674,10927915,8147906,5563869,4486084,2501734,-42583,-1355208,-1735929,-1805033,-1836592,-1774984,-2295023,-2087636,-2532064,-2772374,-2333813,-2829544,-2550393,-2449505,-1863877,-690690,752920,-19400,-3161987,-3872802,-5161304,-5875142,-7121675,-7866882,-7848738,-8735762,-6643443,-7998695,-8064212,-8393020,-8581079,-8892872,-10453421,-11117580,-11348413,-11936373,-11464546,-11639438,-6879415,-5297505,-4615670,-4788521,-6059105,-8296680,-8837184,-9467502,-7453892,-8329865,-5346974,-4988659,-4220466,-3704870,-3709446,-3842896,-3525987,-5152870,-5909650,-6827375,-8140918,-8549804,-8571185,-6658386,-5357112,-3178178,-1164437,-70789,1096665,2122603,4146510,5631517,6492715,7325772,9462796,12082191,15268781,18519588,21646423,25009836,28039427,31447403,34442654,38032211,40482014,43711739,44943932,44519791,45490345,46031792,47265526,48520206,49957436,50901524,50647530,51764015,52158596,52372746,53146637,54282879,54776520,55741371,57987793,59794994,59767487,60277847,59640289,58321480,57369530,56108105,55057571,54387310,53859737,53828259,56093777,54449375,57176304,56498852,53896862,52719852,50581985,48736969,47386082,43280296,41228310,40905964,39856068,37340523,36301239,36337723,34547871,31838997,28451176,25808376,23757387,20984087,19884956,17986124,16401220,14898501},
{-30149969,-29351645,-28295849,-28008837,-24111063,-16601465,-15960155,-17364702,-16925322,-17986227,-17256929,-14916096,-11902512,-11276046,-6922035,680507,-1286461,-5630496,-3262463,-1168877,1058479,3867157,7156981,8859642,10787587,12565907,14864810,17495270,19789988,21835203,22945240,22290192,22090958,21450060,20793209,16449400,12484425,13909997,13026258,10667338,6900239,4472648,3471470,1447965,184976,-125409,-379830,-533160,-534256,-960708,-967030,-1143251,-917331,-724933,-1108279,-976525,-763175,-371765,892762,3133847,732394,-1264292,-2668959,-3690105,-5165587,-6734563,-7384817,-7405497,-7889182,-4166114,-6758929,-7014990,-7653287,-8074284,-8206850,-9270700,-9883597,-9981548,-10273637,-11005253,-11424073,-10907601,-9180756,-9148556,-8308490,-8236971,-6482270,-7957348,-7975217,-5485331,-6451036,-3501259,-2318776,-1618902,-1247530,-1180143,-466850,-1182576,-3373841,-4218869,-5118322,-6102389,-6139197,-5705077,-4308070,-2790897,-335848,1676669,3233397,4612548,5958192,7535097,8746746,9081943,9425145,11347295,13303210,16641848,20169884,23151098,26343098,29284975,32562988,36306973,39162045,42394108,45943710,47612217,47750767,48831028,49087646,49759060,50806446,51913071,53035282,53162785,53587566,53922455,54201096,54936653,55601849,56629143,57108116,59385750,59800182,60348988,60958549,61167484,60383160,59045609,58043682,56598179,55623295,55022564,54427181,56160709,56718433,56489807,56053219,53704979,53637482,51824780,49247787,48004139,43875790,41863167,41995972,40841061,38050800,36620316,36924683,34360561,31753517,28457813,25980803,23985725,20949879,19841423,18029194,16425793,14898501},
{-30149969,-29373972,-28373779,-27928837,-23687870,-16224892,-15786910,-16880356,-16429565,-17747513,-16930399,-14877726,-11573111,-10566088,-7687328,167262,173890,-5299109,-3262995,-1104450,860728,3506862,6971659,8908346,10344644,12554686,14928552,17252151,19889666,22379221,23339733,22984612,22442194,22109558,21064749,10012667,13207776,15757941,15408626,10035098,7445055,5325284,4473936,2981424,1899764,1348285,989695,869319,677457,509547,264131,720644,823717,739243,755197,623899,1108239,1244236,1643818,3054071,788647,256576,-1448276,-3191326,-4490716,-5891328,-6660022,-7173537,-7015121,-6233340,-5723567,-5908977,-6770468,-7368552,-7902253,-8022714,-8035140,-8692271,-9405082,-10480063,-11015255,-10909836,-10480895,-9606559,-7924506,-7955208,-6370524,-6372992,-6831066,-3832514,-3772911,-958539,252495,1056992,1633765,2450483,2178242,1082546,-1603854,-2520535,-3173004,-4059015,-3712614,-3205725,-1698535,30983,2682007,4820934,6481531,8139601,9440852,10675669,11564643,11391031,11594246,12872512,15457709,18248924,21598633,24813835,27595337,30355879,33445648,37143711,40379799,43363194,46777164,49129032,50558060,51947220,52450039,52844704,53467655,54020630,54652103,55158676,55578831,55850353,56077061,56392311,57542480,58090736,58518661,59978016,60297447,60455917,61124836,62239288,62022705,60923119,59755451,58466385,57165897,56115074,55434811,55836437,57532265,56708611,55403904,54059326,54488979,52317669,49569042,48307220,45146351,42348999,42785038,41604370,38698059,36691143,37245499,34296646,32127674,28529070,26161552,24141087,20927670,19787577,18059790,16445759,14898501},
{-30149969,-29396910,-28449337,-27833818,-23257431,-15899101,-15650767,-16386297,-15960353,-17509445,-16503206,-14760652,-11219770,-9887699,-8302699,-211801,791467,-4843015,-3406914,-1078320,830986,3246754,6640651,8569339,10233899,12217175,14595045,17407133,19397444,22424208,23992769,23706118,23149073,22832779,21357580,10773414,13128725,15671283,15068982,11222689,8647761,5839091,6033731,4317842,3424091,3003196,3007067,3133524,2652602,2420814,2141860,2518032,2348298,2548386,2215968,1978675,3203870,2265054,2382170,2472857,1705082,409007,-753322,-2535477,-3990582,-5599430,-6214362,-6370457,-6253119,-5032830,-5138807,-5328609,-6176275,-6841384,-7348081,-7394130,-7844894,-8136593,-8342878,-9941078,-10580913,-10963936,-10243690,-9461501,-8027847,-7257568,-5921243,-5381176,-5643180,-2238045,-1546064,1302988,2536197,3319205,3571123,3603841,3658576,3127809,-35867,-276173,-901981,-1748409,-1335181,-483799,751169,2751529,5327201,7795087,9629995,11093298,12699193,13754107,13761938,13445046,13884809,14656328,16694624,20012314,23357998,26392454,28935740,31577032,34569134,37918579,40847599,44186920,47219227,50838715,53105705,54155128,55175659,55611462,56005157,56593594,57420071,57570114,57532585,57528252,58270588,58283066,59168457,59471909,59901112,60262463,60499512,60623039,61347446,62046429,62928749,62628723,61326130,60185341,58868160,57514690,56558456,56309471,57949520,57415539,56362244,57077175,55507214,52933823,50342155,48509487,45786488,43065502,43414928,41986820,39117191,36771629,37279438,34388943,32308838,28967775,26404419,24228987,20922838,19742693,18077465,16461510,14898501},
{-30149969,-29420143,-28522545,-27722067,-22823931,-15630322,-15547293,-15909332,-15537666,-17274349,-15985625,-14551071,-10884498,-9076419,-8022672,-601226,489720,-4473955,-3277551,-988911,1031902,3040864,6336430,8372030,9812432,11892756,14439119,16983147,19628834,22508114,23613083,24146620,23863930,23190094,21327637,9169749,13384051,16290735,15412206,11991089,10090904,6302164,7376821,5729894,5118329,4832526,4921862,5230393,4797431,4238621,4221159,4234141,4258108,4205159,3958418,4950287,2760471,3267770,3236335,2951335,2734153,2389147,-106357,-2222105,-3930548,-5441511,-6072796,-6206600,-5901559,-5807092,-5514909,-5194653,-5785426,-6420911,-6996800,-6909488,-7281306,-8007675,-9008552,-9712836,-10042377,-10146531,-10313588,-9140245,-7530763,-6288095,-5512879,-4651316,-4167890,-92008,559912,3847957,5245799,5416369,4906836,5494545,5139986,4824393,2195611,1258478,1286762,298494,960361,2041765,3077975,5618884,7864399,10510651,12434311,13863654,15448389,16044613,15565328,15173929,15891421,16935619,18559326,21403683,24922676,27472055,29739054,32575569,35511311,38388889,41691334,44661228,48175774,50609009,53865036,55888008,56980946,57681454,58205772,58714161,59317558,59707966,59746334,60096294,60104107,60488617,60732506,61110371,61655766,60630737,60459400,60537407,60929176,62138935,63216431,63444706,62974281,61615078,60501850,59238728,57933861,57728031,58900192,57575775,57656063,58015423,55949181,53711353,51110718,48973450,46194141,44003445,44480232,42454285,39234776,36712700,37041363,34557533,31772814,29611614,26590334,24260799,20947769,19710779,18082767,16473473,14898501},
{-30149969,-29443377,-28593258,-27595011,-22401297,-15405667,-15456938,-15452348,-15183895,-17045612,-15399522,-14233841,-10528437,-8165877,-7571598,-1032472,-330411,-3910073,-3112825,-792859,1176343,3090739,6105858,8252289,9577260,11635726,14191654,16635986,19884991,21766050,23843765,24400740,24155798,23282696,21051910,7634042,14001414,16437946,16141582,12548936,10845451,6880732,8629647,7408403,7138580,6879468,7051976,6865938,6388989,6246887,6432315,6512712,6408561,6017996,5560216,6836379,5807002,4392012,4372399,4043928,3469375,2498862,147635,-1565957,-3481807,-4736089,-5799249,-6092771,-6102691,-5977618,-5786057,-5235401,-5548017,-6261878,-6686791,-6950044,-7398580,-8133109,-8917565,-9058956,-9516938,-9470875,-9170004,-8405598,-6843490,-5127769,-3870038,-3675932,-3327530,1617169,2450465,5487246,6504750,6471731,6403927,6738514,6765574,6074686,4589398,2866092,3058450,2408965,3314706,4380790,5827032,8056931,10288019,12971509,14665581,15621001,17137508,17561581,16857080,16390749,17273239,18585474,20517120,22831692,25864067,28429861,30224197,32637875,35825569,39111172,42451546,44604134,48303734,50517670,54994442,57447685,58891117,59827766,60357029,61070034,61156315,61500675,61633381,61811787,61827446,62075111,62653683,62161995,61182549,60742348,60777771,60486912,60862804,61885048,62971764,64123505,63895943,63126774,61934509,60766918,59413883,58784805,59912758,58367954,58488834,58199478,55944656,54741547,52257977,49124634,47415127,44620182,46060497,42875443,38933842,36216503,36532967,34957916,31014753,30215691,26704418,24256250,20990679,19679310,18076952,16482098,14898501},
{-30149969,-29466413,-28661091,-27457130,-21994045,-15247214,-15388439,-15028698,-14883189,-16834929,-14768255,-13810716,-10131058,-7114945,-6867261,-1503612,-1252110,-3105888,-2744065,-465651,1364998,3126037,5932578,7959410,9103752,11529489,13854979,16710503,19622797,21995127,23018377,24068031,23937408,22867548,20228369,5370985,13519571,16226690,15401117,13251624,11344562,8916569,10248992,9233996,9027922,8746160,8518905,8403340,8094045,8161778,8156394,8167031,8052590,7441884,7401108,7169889,6506449,6122746,5749812,5687118,4140753,2281778,817342,-1283099,-2936380,-4400538,-5617094,-6057909,-6198117,-5840251,-5915814,-5570546,-5996076,-6683102,-6834178,-7064968,-6985962,-8288521,-8570062,-8573189,-8781348,-8549253,-8085621,-7332506,-6445349,-4714350,-3365256,-2658996,-2126961,3727268,4491570,6206438,7507902,7459096,7909060,7982113,7849768,7437636,5987171,4752278,4763331,4620471,5696612,6753187,8241627,10499228,12987789,14825901,16433586,17117168,18077833,17879845,17232887,16956837,18230570,19509941,21682629,23393068,25662891,28224014,32616020,33147594,35605370,39567379,42372665,45461456,48567108,51829834,56028828,57837788,59436810,60889420,61716953,62552193,62973560,62997463,63123829,63050045,63622910,64231613,63019066,63661728,61752277,60721603,61141769,60807270,60979214,61666172,62811974,63734470,64472496,64161469,63205505,62194687,60803326,59691532,60586403,59151108,59088181,60107674,56384853,53956070,50856579,49263306,47975517,45297684,46558674,42993580,38235905,35394310,36056732,35217735,30747183,30206030,26875462,24231272,21023108,19640196,18061827,16487822,14898501},
{-30149969,-29489183,-28725842,-27308638,-21598328,-15132562,-15356629,-14654125,-14634412,-16622570,-14121488,-13323585,-9691293,-6020811,-5983246,-1651296,-2280375,-2412626,-2020643,5776,1647703,3237326,5886369,7609249,9179905,11072531,13532701,16385393,19137945,20406555,21713863,23181124,23243750,22187061,20159443,3835680,13052785,15857887,14900292,13580470,12425295,11409359,11361542,10773812,10608036,10344969,10011040,9761207,9748142,9752287,9720340,9712574,9518733,9171158,9246385,8361684,7022540,6768344,5848949,5077213,4109425,2313412,1460693,-804987,-2097658,-3945044,-5208452,-5933803,-6344105,-6471400,-6535541,-6229798,-6645387,-7088009,-7182707,-7049324,-6986995,-7801228,-7910354,-7918839,-8121883,-7830467,-7579410,-6960809,-5566448,-4142164,-3075316,-1763128,-588150,4909237,6113323,7243077,8440555,8307735,8821088,8825376,9460710,8962789,7174603,6857974,6619992,6611942,7883544,9100161,10710813,12974647,15157524,16595604,18206757,18430414,18718462,17939646,17577957,17364033,18831081,20641979,22727301,24637360,25941580,27731537,32207489,31966496,39069378,38855663,42027279,46122478,48690933,51721596,55719646,58999077,59571510,60769474,61695225,62369141,64222641,64707405,65401222,65181046,65609100,64669250,64373039,63028172,61953377,61104649,61014378,61142662,61201393,61605659,62497364,63669209,64527367,64959412,64274345,63071541,62161201,60994640,60877258,59901470,59058514,60527225,55029564,53146534,51810421,48952591,47832970,45951969,46423923,42915684,37209286,34633354,35680843,35042686,30746099,30098949,27019674,24201096,21052839,19602034,18040195,16490984,14898501},
{-30149969,-29511713,-28787594,-27150490,-21222536,-15066565,-15352794,-14312396,-14448530,-16414253,-13486698,-12796445,-9215277,-4968992,-4801741,-1390539,-2796220,-1957456,-1682955,496314,1948531,3381305,5845308,7393760,8786084,10955141,12739803,15951126,18927210,19490637,17543623,22431692,22289881,21052319,16656546,3359466,13637322,16150574,15620496,15342484,14144353,12772048,12568213,12195471,12100163,11914802,11714604,11212071,11504797,11231257,11321165,11468219,11153910,10890027,10601713,9382913,8595707,7515382,6876735,5552483,4684133,2701999,1743237,414788,-1337642,-3284866,-4656375,-5715756,-6300616,-6164977,-6656886,-6832397,-7168375,-7385411,-7310957,-7058644,-6774663,-7192960,-7547926,-7654571,-7386178,-7121130,-6904744,-5634488,-4631407,-3174274,-1997757,-625820,1031440,6039608,7805394,8514701,9393613,9113971,9770231,9708477,10050613,10401080,8899016,8468062,8607660,8628668,10061475,11330578,13114552,15662636,17597862,18430937,19872135,20223616,20003637,18905430,18127356,18397581,19628201,21277988,23705303,25680941,26607931,27912386,30367752,32042244,33559422,37970665,41460342,44386883,48622440,52909935,55392792,58357586,59758923,60507706,61612144,62466415,63778458,64773476,65724411,66288139,65517052,65115234,64138176,62938660,61880287,61659386,61143829,60949574,61176098,61348473,62169170,63287216,64147865,64895241,64873360,64085197,63420528,62824497,61441624,60409336,59284420,60517498,56828014,54510269,53609615,49858471,47121578,45614910,45907234,42667580,36011246,33543312,34881161,34365185,30610683,30070450,27130772,24164953,21090332,19576134,18015997,16491766,14898501},
{-30149969,-29534075,-28846199,-26987284,-20875353,-15044490,-15380980,-14007292,-14281537,-16177528,-12891022,-12272820,-8735802,-4079795,-3592932,-1082654,-2488150,-1771032,-1525660,928517,2285046,3504136,5759663,7383095,8826220,10660669,12307074,15460853,18915234,16907217,14139738,19671539,19250854,15811975,4625772,8375942,14806695,16778811,18050762,16558720,15037910,13685880,14148910,13866863,13451399,13445704,13349954,12565310,12924483,12797627,13068147,12866908,12717879,12444833,11957945,11095889,9571037,8444676,7928821,6426462,5129070,3571635,2419906,1404710,-491960,-2305613,-4077976,-5179306,-5978266,-6134573,-6645327,-7174467,-7327981,-7600826,-7492306,-6752769,-6425317,-6717435,-7044029,-6918246,-6798107,-6067055,-5819433,-4740024,-3473822,-1737230,-951877,562240,2627131,6295568,8564723,9063165,9680576,9937952,10611450,10907091,11124640,11736615,10535216,10343559,10332835,10574316,12132342,13105374,15269967,17720560,19395678,21495609,22056118,22132761,21542854,20236679,19142744,19951666,20559309,21507933,24212234,25984390,26883863,28658953,30613049,31714262,34168488,38094254,39571041,43470585,47814915,52446243,54854023,57190617,58651722,60020191,61167019,62372356,63984058,64942291,65723206,65960640,65307236,64650703,63633362,62912292,62413876,61837315,61347900,61187859,61045105,61236740,61572353,62851879,63827335,64754074,65388443,64594269,64613220,63981911,62610222,60388165,59706272,60175503,58555733,53813103,54252289,51879303,47336540,45845375,44658615,41338497,35039593,32242420,33626045,33527344,29977940,29909603,27247114,24178463,21125477,19563395,17993006,16490185,14898501},
{-30149969,-29556318,-28900875,-26819714,-20550291,-15068014,-15437665,-13742437,-14126719,-15912270,-12357393,-11694384,-8291956,-3450845,-2673319,-642989,-556464,-2001816,-1364660,1053378,2528476,3619432,5705958,7147064,8583794,10412682,12455728,14830920,18152674,15999648,10342965,15000896,15856873,8659739,5309649,14857448,17177824,17266731,17723911,17250187,15969202,14843617,15504793,15043349,14724452,15000639,14710961,14192477,14514256,14307034,14592379,14330606,14199671,13753657,13596354,12366516,10904910,9341123,9004022,7647120,5786265,4522687,3267283,2398913,875534,-1099210,-2920453,-4301165,-5188579,-5795452,-6380798,-6888592,-6992983,-6980465,-6783843,-5956405,-5999660,-6242959,-6054631,-5940397,-5831601,-4924481,-4707356,-3531070,-2146633,-1075739,182439,1518884,4236082,7332644,10050632,10433479,10558826,10908875,11734757,12213752,12973348,12854782,11855557,11998139,11602225,12473396,13798007,14793500,16934387,20419025,21836859,30287569,23891861,23463043,22734156,21032850,20484484,21226097,21800283,22034433,24105181,26188854,26882572,28599453,30068018,30940632,33435513,37098240,38245228,42903042,48312832,54020744,55595787,56544029,57760422,59267780,60544945,62321671,63753242,65129204,66027954,65759865,64785210,64299057,63944569,62986420,62429920,61722897,61218075,61487495,61261925,61173084,61380993,62273376,63376415,64277756,65052917,65584175,65028839,64541656,63545055,60646126,59347210,59315872,59028439,52570881,54595066,50041824,48092457,45921127,42644344,39361465,34099987,31091576,32722054,32812969,29212044,29740294,27103775,24266521,21162846,19560793,17972692,16486137,14898501},
{-30149969,-29578428,-28950706,-26647144,-20246752,-15118000,-15498348,-13513424,-13958495,-15608765,-11896170,-11189878,-7909728,-3083470,-2057797,263120,1739401,-1817658,-901844,1253585,2704717,3662287,5779922,7003197,8577011,10423573,12461453,14507850,17220846,16126659,13419472,9377556,9588639,8902784,14587160,18616171,19707697,18855183,18209061,17283592,17036167,16273693,16381128,16174778,16151138,16574574,16453594,15996500,16058849,16001860,15695951,15812986,15345246,15150831,14638644,13968173,11645887,10981712,9965909,8571360,6977848,5585539,4309016,3285218,1822863,241022,-1578465,-3196422,-4600364,-4933988,-5473531,-6151097,-6082111,-5881428,-5521969,-5164886,-4910876,-4989958,-4800935,-4730043,-4248553,-3453735,-3674329,-2275023,-742756,141419,1238303,2374613,5392770,8249596,10116455,10590848,10706405,11527702,12312468,13429932,13536574,13791794,13144798,13386077,13106908,14165548,14903342,16023142,17910732,24892134,23312181,25112938,24753281,24441786,23459217,22336740,21839329,22313896,22934708,23363689,24759186,25540791,26877918,28659418,29899082,30599207,32840435,35453873,38420467,42401127,46831882,49129013,53451714,54953548,56842056,58356457,59902958,61749840,63318203,64493111,65545677,65391899,63934353,64177956,63328510,63118305,62530933,61438457,60680828,60658276,61947083,61134155,61064701,61665779,62999199,63922657,65003738,65652924,65348679,65173683,63975616,62247620,59269829,59420189,58419670,53720100,53602234,49958054,48857243,47110203,40687153,36394917,32861053,29941589,32260441,32279491,28598305,29224710,26550928,24372303,21207325,19567373,17953602,16479542,14898501},
{-30149969,-29600323,-28995380,-26473993,-19969275,-15200579,-15542186,-13314159,-13793588,-15255147,-11501475,-10784227,-7614562,-2951617,-1786758,987098,3109805,-1182626,-616023,1706574,2853367,3773427,5583526,6758312,8464921,10168365,11889194,13967960,16848389,15931904,18299454,15257225,14901132,16134947,18692072,20399776,20754765,19787910,18792809,18023470,18156591,17542372,17673574,17515644,17402943,17852196,17845409,17726755,17748919,17574934,17104431,17239735,16777130,16272713,15802886,15024129,12897523,12207068,11186646,9453098,7895072,6549675,5362349,4155561,2870182,1193621,-616168,-2094669,-3436245,-3861688,-4601376,-4813221,-4633558,-3956225,-4221722,-4045342,-3943847,-3928612,-3647069,-3095998,-2618071,-2080545,-1932716,-497973,739232,1730006,2794788,3750905,6039853,8293459,10452677,11225981,11295726,12053897,13134376,14423882,15117536,16211611,15207367,14602384,14856942,15220629,15314935,16574484,18316635,25537342,32645229,27954542,25583570,25864851,24676838,23282698,23223789,23427246,24150341,24806532,25738722,25999228,27269672,29336977,30667397,31728380,33134834,34872211,37729519,41588951,45367577,48702473,52012592,53900276,55896118,57599842,59470154,61807873,62202297,63774715,64260567,64387581,63012711,63644768,63217545,63192585,62176563,60533005,60117920,60163235,62665089,61132206,61066780,61092762,62179440,63467506,64461220,65204315,66115135,65770668,64793808,63091534,59974773,59377563,57650654,55610085,53486603,50358162,49022739,48420879,39294872,33298206,31502028,28851404,32139210,31861439,28163582,28909161,25832209,24507151,21259052,19580643,17933407,16470463,14898501},
{-30149969,-29621861,-29035168,-26302227,-19720259,-15297569,-15570521,-13129291,-13642732,-14850435,-11147323,-10484574,-7384829,-2934807,-1785379,1449540,4062088,-98852,-193050,1749186,2848750,3888558,5622715,6605876,8239174,9925343,11513136,13831324,16702147,16860094,19783318,18841722,18430088,19164539,19927336,22004791,21034622,19751348,19347103,18825100,18949259,19097496,18957991,19037783,18908447,19176998,19100212,19190311,19112906,19058554,18711758,18269819,18060616,16982723,16758831,16189013,13771814,13026411,11872210,10346429,8669196,7474848,6229505,5061828,3754930,2300500,375097,-1002430,-2099021,-2805678,-3347651,-3388155,-2299183,-2257467,-2685294,-2834465,-2648217,-2716933,-2096072,-1318959,-578939,-83183,373618,1357875,2433676,3302623,4584141,4931166,7433575,8232037,10549038,11951778,11663145,12935630,14185100,15488172,16192787,18051939,16612318,16435820,15835768,15792939,16651548,17622093,19185200,21355221,25256285,25836033,26205631,26879017,25656712,24000940,23870073,24279177,25144228,26238173,27386051,27723480,28346283,30499437,32005367,33329868,34348942,35274502,37724564,40986134,43816319,48549000,50871731,51994621,54500229,56408249,58594261,61177361,62772182,62989803,63097836,62436008,62918442,63290276,63204945,63182991,62113308,60410648,60556938,60189938,63148155,61691051,61038006,60854214,61289272,62842587,64132004,64946884,66516823,66199280,65472588,63507065,61021656,59860332,57860378,56484600,54005894,51302864,48404602,46971977,38720493,32112503,30297941,28256355,32268745,31510094,27869085,28790951,25627272,24685808,21312347,19598885,17911695,16459232,14898501},
{-30149969,-29642897,-29070196,-26128761,-19498775,-15409979,-15580507,-12958449,-13539477,-14418752,-10819296,-10278995,-7204263,-2912032,-1893919,1604005,4961228,1683435,138529,1926465,2900489,4026711,5642866,6487264,7921460,9936691,11439472,13323807,16497328,17434803,19968687,20159496,19152586,19714132,20202908,20731236,20825062,20187107,19958977,19701212,20204157,19904083,20087902,20269651,20316870,20887449,20446770,20456461,20301659,20202894,19693186,19066538,18907833,18081017,17778028,16726477,14964821,13822137,12643304,11120213,9534797,8414187,7255345,6072833,4858156,3153414,1524598,171122,-783090,-1546075,-2043794,-1849456,-1347514,-1130497,-1369493,-1355769,-1203200,-862824,-265403,555476,1578108,2265492,2166433,3413880,4114248,4880837,5817653,6551379,8406004,9625235,11056600,12617375,11679122,13449147,14926278,17097948,17285082,17126133,19009560,19588697,15975267,16309698,18163271,19022018,20372303,21681808,23723822,25597475,26792830,26787239,25406574,24073503,24037903,25035202,26532133,28107424,29464924,29733805,29628593,31598244,33303558,34605656,35723461,36399761,38652004,40520134,42904182,48368465,50201733,50713421,53776215,56149536,57598557,59613682,60988400,61960129,61671139,62373199,62715294,63073936,62935661,62526062,60994347,60617657,60212036,59937325,61218086,61812794,60979752,60797203,60762821,62176384,63722252,64569267,66631752,66548508,65129890,63784477,61473995,60043720,58789246,56612659,54766216,52458927,49083752,45853138,38795586,32723671,29635826,28362795,32176964,31862791,27325371,28966183,25907845,24932858,21379326,19624830,17890415,16446472,14898501},
{-30149969,-29663307,-29100185,-25955151,-19294701,-15523249,-15567365,-12789667,-13407764,-13945378,-10481946,-10107161,-7043941,-2798855,-1939005,1498149,5669435,3693336,477441,2064707,3029834,4211740,5690156,6504434,7609677,9448083,11160587,13014212,15854143,17752102,21211596,20687599,19528795,19939108,20839891,20738239,21042784,20900650,20539782,20389931,20652008,20772192,21224951,21455130,21579145,21935339,21864019,21666512,21762716,21464735,21007656,20159662,19854179,19141315,18344751,17010679,15790139,14670900,13420987,11842246,10248363,9181125,8080202,7050703,5686206,4460965,2852925,1557836,619791,-211009,-490442,98147,-14925,274436,134656,228124,549174,1010961,1677881,2480778,3991671,4747651,4409757,5496049,5700989,6710457,7670077,7973196,10197713,10896950,13553360,12745690,12147263,14617077,15686178,16565868,18393848,18606483,19098618,20334812,17347292,17631517,19000614,20266823,21565281,23228371,25075180,26351612,26237013,26286198,25349077,23999649,24192671,25976164,28110323,30378185,31874580,31678804,31729750,32536606,34035629,35713093,37857265,39721352,40228073,41176991,41821533,47261261,48687721,51380753,51974243,54043079,57010311,57312527,60183731,60892422,61093781,62127819,62357288,62467983,61795784,61709305,61160847,60278355,61257442,60949608,61098717,61804779,61570187,60344925,60692291,61444992,63062286,63503231,66854919,67094963,65720917,63776123,62184582,59945454,59662651,57675377,55653713,52578312,49371704,44725109,38570950,33457150,29934645,28350975,31766081,31648537,26972092,29172283,26302734,25262693,21478273,19659151,17871632,16433002,14898501},
{-30149969,-29683002,-29124947,-25785105,-19106922,-15635825,-15518242,-12640331,-13261311,-13447152,-10111080,-9907281,-6860302,-2524579,-1744203,1264237,5975730,5361912,1459001,2034944,3386529,4457722,5834190,6491938,7294523,9071536,10666018,13004033,15024498,17982964,20877010,21065069,20032406,19975670,19975004,20808910,21341820,21341389,20953617,21128954,21413021,21670553,22404711,22546524,22713007,23231352,23157497,22871658,22777449,22235458,21966328,21031637,20726200,19920839,19071335,17702547,16565056,15208586,14143013,12701150,11220605,10077590,9097119,7850462,6791503,5585477,4256212,3105857,2028508,1189611,1045035,1522972,1560882,2192888,1655860,1356688,2113383,2567126,3268774,4432444,5242084,6315373,6504347,7740575,8229049,8887012,9704870,9539778,11811338,12800517,13439355,12674379,12900879,14608291,15871831,17241535,17844971,19163733,19384703,19072662,18757074,19215328,20178316,21479774,23564838,24833954,25893156,26686752,26405138,26220106,25691132,24823895,24921652,26935436,30013853,32791786,34250206,33958294,34025574,34070171,34995842,36914074,39362431,43208023,42221249,42290630,41767879,45963760,48151428,49694359,50774849,52315964,55089722,58380268,58389179,59352295,60973980,61330746,61732811,61632019,61477985,59968475,59280151,60357231,60958828,61667866,61340492,60194778,61062000,60769054,60497677,60877460,62450687,62857021,67373947,67399666,66195328,63986187,62336788,60429035,59603809,56931473,56175869,52856609,50152893,44884243,38249653,34484962,31150106,28620277,31832300,31425543,27301571,29393456,26479776,25643116,21600372,19697166,17855381,16419666,14898501},
{-30149969,-29701921,-29144716,-25616163,-18938257,-15739594,-15435115,-12504811,-13120925,-12964329,-9665341,-9645028,-6625087,-2071881,-1201708,1081847,5814140,6962890,3381203,2258229,3755128,4687494,5977457,6699562,7142805,8859932,10511557,11963930,14659657,17653648,21145178,21252693,19577780,20073343,20545128,21384035,21653811,21922832,21559277,22108950,22170240,22693611,23288651,23620886,23710985,23993217,23985003,23907417,23509457,23219467,22649904,22012222,21588301,20772297,20147560,18359558,17246298,15873051,14700247,13384641,11994155,10885310,9912655,8847670,7805113,6745147,5602988,4373312,3332417,2656897,2834483,3349592,3437261,3644946,3484742,2973834,3676854,4045357,4976136,5948512,6944230,7898308,8504335,9658659,10208543,10703185,11395237,11367355,12735123,15013757,13225093,12192202,13307034,15546196,16615664,17529053,18304522,19619358,20222733,20876087,20617306,20184759,21670305,22340878,25760248,27884699,27012613,27528410,26622574,26041340,27538891,27663723,27096586,28588367,31011675,32784294,33789566,34568871,38604012,39317539,36003056,37478096,40047829,45265732,43205524,43981251,42869114,45678211,48715076,49483734,51780220,52149277,54359035,57891663,58198292,58535995,60618607,60534084,60800297,60317612,59792347,58809700,58076431,59519005,61069714,61533268,61209309,59999653,60857689,60956570,60022694,60623501,61771168,62839409,66875664,67632095,66087296,63827713,62473747,60924732,58664185,56487118,55422886,53251358,50777039,45499180,38571880,34463017,31227879,29410870,31783703,31634069,27614529,29789286,26340307,25981171,21731253,19735193,17840027,16407104,14898501},
{-30149969,-29720007,-29159641,-25446884,-18786747,-15819587,-15326818,-12387755,-13032582,-12518132,-9144448,-9246516,-6317498,-1457002,-276113,1074402,5237805,8044808,5770515,3215985,4034726,4895597,6100945,6826413,7185386,8722318,10322152,11636614,13615844,16905104,20158554,21204367,19197067,20338655,20386003,21670761,22058668,22564335,22448097,23024309,23007378,23612343,24237902,24702068,25103863,24951950,24973333,24941795,24625460,24331034,23539803,22668037,22192810,21173422,19815182,18664148,17496336,16628418,15186665,14027637,12826370,11768788,10735420,9763204,9038744,7880954,6863277,5555528,4625247,4265521,4409538,5038567,5207548,5010353,5009064,4762084,5036745,5665000,6175423,7278177,8140447,9561852,9741337,10631948,11992801,12578343,13055030,13343555,14430435,16460093,15354915,13484879,13513930,16187494,17110165,18007759,18894011,20324280,21360674,23024794,25593401,26453323,27536037,28773470,29174978,30522097,30044662,29885300,28627365,28806562,31521090,31273579,32673531,33670193,33129593,31188921,31038731,33348423,42380215,37947220,37152870,38001781,40721256,47740345,44146545,47484657,45118229,46801361,46904884,49053085,50711826,51649033,53860573,56594067,58440514,59061222,58850246,59171535,59730377,59107384,58526024,57941097,57607628,59122601,59607399,60275131,62108585,60306911,59598194,59654751,59784172,60156509,61022709,61985989,66387085,67345795,65613800,63596909,62234844,60728584,59352600,57137707,54375942,53883015,51187607,45525928,38893375,33824867,30801060,29875084,31552240,31745356,28095177,29875834,26430859,26198423,21860641,19774694,17824360,16395576,14898501},
{-30149969,-29737179,-29169161,-25281504,-18649328,-15884770,-15189671,-12296020,-12994886,-12087485,-8561316,-8709621,-5933610,-812287,903903,1439864,4369268,8310719,8504448,4682181,4130103,5103665,6090745,6953269,7390657,8674705,10200782,11475379,13755139,16563034,19925537,20713121,19509726,20951092,21036127,22050154,22494089,22993738,23064665,23897129,24010944,24327724,24899923,25664276,25827585,26359112,25785042,25660246,25358175,24363838,24299976,23338820,22255947,21024734,19588516,18793751,18073835,16732315,15877138,14589063,13558405,12664119,11764642,10963164,10268853,9178134,8075269,6884357,6021284,5849560,5787270,6173234,6344527,6542337,6273653,6200637,6491781,7131155,7508801,8597659,9185969,10638659,11054881,12157730,12900566,14087050,14653600,14995407,15702711,17930672,18865223,15590896,14317231,16724075,17896713,18833569,19855236,21156902,22779800,25188728,29075855,28588419,28089277,29760191,30318735,29560549,30316418,31732409,33166721,33713642,32944454,34388100,35493942,36136795,34889339,33683296,31571939,32045650,42768459,37084766,40477180,39183582,40179138,44901161,45967293,48179310,47528145,47136600,48180336,48522129,49495678,51220261,52861664,55706985,55831085,58722057,58644547,58381725,58554493,58135670,57581291,57428551,58294998,58862789,59079441,58350330,61627155,59655998,59465755,58670761,59734722,59721588,60536999,61390430,65316414,66655594,65392853,63335205,61531067,60718552,59547939,57595219,54529961,52755184,51437691,46159267,40177677,33558620,30748348,30206169,31440554,31719261,29145388,29859585,26781738,26204529,21986996,19820744,17808842,16384878,14898501},
{-30149969,-29753332,-29172281,-25120501,-18517841,-15918962,-15043079,-12258698,-13030264,-11713859,-7937136,-8023476,-5493742,-175900,2225781,2231600,3442586,7669011,10063679,6038078,4368356,5174084,6124756,6955505,7617548,8739482,9995301,11146719,13588436,16620842,19231009,20810295,19634363,21079746,21290405,22452229,22801477,23535275,24044464,24579062,24749222,25078188,25555817,26496918,26737141,26731503,25582983,25266047,24856071,24383568,23853607,23196976,21956587,20872778,19683313,19029711,18619957,17312384,16459009,15310561,14081503,13500922,12561264,11818719,10883409,10432391,9369041,8040105,7700249,7246393,7039908,7214596,7229195,7577451,7578040,7324866,8177257,8724195,8607835,9782852,10702127,11740335,12270877,13077282,14050362,15043447,16040062,16588068,17010353,18234495,18963125,17410395,14553632,17579660,19017254,19940838,20948717,21897921,24363245,29092709,30810148,29149801,29423502,31162458,30682522,31060310,31757591,32333698,32966606,34309929,33673660,35127254,35464291,38031342,37593060,34326271,33911995,32413769,41154972,36671852,39758144,41127136,40535397,42677940,45512424,45844940,49462448,50473923,48763119,49520222,48394794,49594631,51314873,53244728,54900139,57733398,57056774,57181778,57453110,56977596,56897400,58889267,60509262,60386974,58295410,57754631,60295155,60448559,60025486,58432316,59745491,59527180,60237583,60741539,64271378,66061760,64573868,63067924,60924084,60316238,59305336,57807014,54790264,51730358,50897469,47048046,41925331,34302525,30973881,30423153,31603628,31512417,30399979,29171482,26958754,25820364,22104347,19874575,17794882,16374405,14898501},
{-30149969,-29768341,-29168423,-24960087,-18393578,-15933142,-14880005,-12243870,-13122217,-11427490,-7325119,-7231122,-5034307,354433,3497045,3402735,2683263,6299157,10726632,7827134,5093428,5264400,6122729,7104405,7753802,8820668,10096109,10914045,13246835,16068701,18600824,20316095,18855234,21265682,21650604,22614536,23232952,24080236,24549959,24931391,25297155,25989941,26434078,27344666,26942606,26591133,25795341,25299124,24840521,24390747,23718161,23008883,21907581,20575541,19531374,18390121,17604151,17586508,16820343,15903536,15054807,13916142,13623348,13185143,12440150,11385475,11045579,9499099,9346785,8311309,8400131,8368383,8638145,8912802,8599154,8685336,8591636,9459012,9972831,10678596,12034661,13381473,14301849,14326680,15229044,16269894,17241610,17514006,18405582,18361633,19301283,17379032,16057909,17971155,19372219,20288937,21718800,23122362,30968935,32414417,31399019,31067411,30460596,31055437,31566015,32281063,32797195,33615669,35100872,35209854,33778805,34699932,35886276,37774673,40473888,37685631,36143429,36446938,40854874,42431442,40934940,44031734,41593327,41251644,43365570,45752048,46202633,52667301,50324520,50320923,47522621,48681896,50639416,51007809,56010567,55766624,55219696,56260723,56449600,55933666,56156967,60340675,61139206,61493038,57832607,57074409,57616482,59519825,59662182,58739380,59640755,59623676,60347794,60960396,63573032,64781990,63435520,62164333,60353516,59802414,58995548,57979492,54540504,51267693,49756538,47360477,42451889,35871300,31738068,30578077,31571249,31455400,31453653,29130341,27070913,25087339,22211681,19927435,17783449,16363321,14898501},
{-30149969,-29782085,-29157673,-24800200,-18274134,-15917966,-14709569,-12281080,-13258084,-11236314,-6753877,-6422916,-4585974,681039,4574311,4834971,2359740,4625288,10556167,9854853,5929620,5493339,6029631,7104193,7789952,8778141,9973272,11042086,12922032,15830612,18347488,20000988,19241728,21216751,21827929,22807924,23511631,24693336,25058477,25559679,26239798,26699564,27375217,28024662,27130796,26270348,25932211,25191309,24647991,24254883,23460934,23017031,21970367,20453396,19096270,17943811,17589720,16843321,15862541,16032488,15388707,14519709,14611194,13810046,13001618,12669844,12123610,11338061,10815556,10139074,10136407,9884623,9749367,9240582,9133986,9720773,9550262,9481112,10024693,11802827,13323712,14337489,14985721,14803373,16409554,17577366,18416876,19009802,19350004,19408504,19392284,16522362,18054623,19237398,20319235,21280899,22685535,26348021,31933084,32588943,33849880,32484917,30683256,31375336,32451183,33384632,32244919,31064766,31281487,32398827,33868328,35826683,37288273,39411392,39246201,39695271,39147758,38634640,39847954,41637550,44911568,44291618,43089722,42292747,42110340,49244301,46011131,47737988,48390469,51471882,46074421,48157803,50371567,52014450,53483746,56287670,54178356,55432858,54741451,56454613,57130260,58554813,60371593,60585636,58687222,56073338,56605022,56377579,57092186,56218670,58431049,59426132,60521996,61623390,62611305,63288456,63028843,60171425,59436390,59136993,58721680,57963100,53911446,50992168,49097149,47706135,42519520,38515388,32820908,30993490,31415485,31590370,32160572,29145147,27132719,24473595,22311605,19971395,17774508,16350840,14898501},
{-30149969,-29794470,-29140255,-24641350,-18156521,-15882693,-14543228,-12358418,-13428087,-11128126,-6256207,-5666324,-4184189,775839,5343596,6103482,2645382,3197037,9798020,11622665,7340421,5951639,6052553,7164932,7934069,8704412,9845356,10810152,12597377,15467096,17802002,19832943,19476252,21361631,22144156,23384855,24098753,25047499,25345837,26190052,26603621,27156612,27872692,27638279,26933584,26042889,25495695,24680275,24397686,24056822,23375456,22812416,21811201,20442398,18719835,17801611,16975252,16267868,16318186,15438032,15172301,14639841,14189441,13744129,13120275,12868345,12178342,12034860,11780457,11958826,11623840,11350821,10527698,10218987,9552603,9850267,9844696,9969361,10462627,11699658,12991941,14003406,15091590,15865219,17517284,18307003,19153984,19535891,20161318,19984703,19276178,17559959,19587595,20476984,21103758,22520502,24586374,31277023,29831770,29870230,32585869,35210003,33029137,31134720,30418510,29697630,28237633,28206314,30138504,31590307,33123695,35569778,36842106,37804802,37754417,39115139,39119678,39139996,39805515,41292549,41912590,44098934,43117420,42373299,41483315,49203625,46968815,45750164,45210026,48596397,45813828,48006886,50939537,55454792,50548763,54011681,52416996,52624233,54267174,57886078,57551956,58518356,59430294,60872154,59350391,56404587,55285294,55434704,55841232,55731075,57546539,59168797,60209633,61542904,62413876,62700035,62087864,58747383,58933392,58592319,58033997,57325211,53658482,50957912,48764187,47360043,42914783,40322300,33904491,31446547,31980961,31553940,32792320,29195410,27199959,24407534,22407223,20012201,17767418,16336456,14898501},
{-30149969,-29805433,-29116089,-24480478,-18041563,-15816005,-14400331,-12492435,-13618171,-11088328,-5895137,-5022355,-3863932,687706,5720507,7273183,3632409,2586704,8767520,12702180,8672915,6454050,6184371,7059328,7968043,8896654,9876427,10416983,13042217,15295913,17175631,19852180,19253159,21973413,22422798,24050447,24711819,25641554,25926981,26716976,27111879,27661139,28195116,27243202,26859085,26048616,24849628,24381618,24164629,23621075,23498604,22218447,21343260,19732544,18222820,17494762,16545086,15975053,15795415,15458641,15129539,14830808,14333461,14075475,13572070,13018737,12755239,12493938,11953366,12293766,12253425,11557932,10897323,10864151,10667620,10535393,10263140,10241841,10493171,11577476,13084843,14067318,15248433,16333353,18082895,18627470,19185627,19585032,19996353,19853733,19382406,19285069,20026909,20443592,21503588,23254030,28364866,30652172,32381413,32860935,33216309,33590153,33390900,31477423,30645866,29593102,28154797,27093458,28941954,30939890,32215324,33288204,35272949,35517147,36871819,38319031,40260590,39596733,39364704,41455486,39678711,42649570,43736176,40861637,40264645,43938152,43984802,51408707,44722878,49978210,46244503,47620544,51800430,53296776,47949097,52039085,49820827,50320309,53265816,58543041,59280384,59856693,59665760,60206310,59490311,56053288,55485729,55426987,55358952,55121765,56593472,58908787,59738686,61114277,61486248,61421360,59960258,57897160,58121239,58056602,57322430,56423523,53798370,50861607,48562321,46526260,43930832,40374920,34944546,32281891,32659302,31687162,32818550,29282331,27315401,24686495,22517342,20059807,17761465,16320122,14898501},
{-30149969,-29814941,-29085045,-24316971,-17926886,-15733807,-14265053,-12679078,-13818273,-11065949,-5688443,-4553912,-3640654,458909,5751407,8194461,5240668,3082300,7824872,13045053,10096812,6936016,6405086,7050441,8043386,8954145,9753869,11061663,13275016,14923077,17197138,19880198,19165268,22508240,23158937,24621883,25422630,26274277,26503935,26881136,27438046,27755760,28255049,27728662,26524143,25678686,24687750,23822336,23788389,23548744,23068472,22300797,21195141,19738010,18207827,16961239,16279446,15958129,15718539,15287283,15037267,14944716,14536044,14413088,13759130,13493288,12897458,12622498,12291138,12656743,12207615,12299549,11694366,10832131,10947972,11069472,10745982,10656393,10576037,11219461,12801912,14070409,15157516,16545282,17517162,18534710,18924917,19262691,19795765,19989836,19126528,20017300,20021402,20695965,22386026,26885952,29922401,31462484,34201881,34386620,32747761,32309559,32809944,32114136,31105894,30194462,28522358,27721134,28192520,29884024,31116905,32254539,33089607,33952621,35672665,37579399,39731876,39979893,39352200,42140919,43541546,46319298,45701881,39359222,37754013,42816433,43138218,49239552,49384354,54110077,49027321,49252800,52620850,53252132,47081886,50440586,48994576,50089851,51966644,57782185,58547146,59415989,58679256,58830715,58829166,58203663,56761555,55619698,55331493,56111542,55816063,57851124,59492073,60197365,59749496,59878342,58580727,57461002,56823715,57162861,55921795,56033527,53807674,50905079,48322937,46132572,44989494,40279160,35851345,33462833,33535595,32142605,31928371,29362228,27497940,24932104,22640051,20114929,17756063,16302280,14898501},
{-30149969,-29822960,-29047234,-24153551,-17816545,-15630701,-14158738,-12880743,-13999017,-11037504,-5626546,-4317953,-3520324,155784,5515568,8904809,7295787,4720091,7381249,13012626,11090529,7433622,6763326,7528268,8290514,9114239,9775131,11468332,12653124,14993214,16539263,19268038,19519825,22855350,23453093,25211407,25764524,26472807,27101854,26840525,27627869,28104589,27842745,27227106,25690769,25395376,24507547,23438744,23840200,23039099,22455919,22067308,20937748,19481146,17972399,16869936,16142174,15709340,15491774,15216676,15145305,14747296,14806025,14722850,14193818,13684857,13088367,12873792,12722961,12696876,12515894,12522117,12495906,11713526,11338699,11725697,11308196,10834222,11097320,11569291,13106207,14051296,14935192,16564156,17267767,18228825,18804934,19436369,19839542,19832937,19706257,19923698,18968517,21164185,24034729,29918423,30476133,32196510,35039597,35080170,32638485,31813076,32131191,32446796,31028608,29751753,28545336,27359024,27788818,28910286,29959110,31005451,32048920,32497982,33379498,35364685,36974483,38527813,39331673,42511158,48302109,52220055,48911037,45626698,37528702,40798702,44973614,52464691,53379539,54255882,53740952,54905342,55854679,55856316,52091965,47975895,48191738,50003193,51876614,56113510,57676636,58006603,57994198,57850842,58393604,58303585,57982456,57924931,57840443,55340057,55442509,58215332,59293907,59597202,58541702,57814121,57821903,56889816,56051796,56609829,55619637,56272987,53557716,50934540,48182877,46084404,44772659,40979965,36690250,34483349,34450100,32781868,31675953,29413174,27780048,25019537,22760937,20171095,17750824,16283758,14898501},
{-30149969,-29829430,-29002790,-23989868,-17700779,-15519608,-14057805,-13115970,-14131597,-10954708,-5678318,-4291171,-3486502,-143162,5163153,9289352,9506459,7167292,7468466,12744319,11922410,8097213,7313228,7984708,8638206,9376085,10043888,11428117,12921238,14578165,16335030,19055296,21001074,24127632,24545326,25497173,25914883,26724895,27424015,27437374,27231012,26733549,27059597,27344595,25000990,25170515,24108141,23357553,23499571,23150785,22237207,21723608,20432987,19028639,17658028,16699986,16203531,15744546,15420286,15340371,15344235,15199535,15106333,15126307,14635706,13902884,13583662,12952656,12700007,12797943,12772924,12491800,12943520,12337583,11981127,11964875,12077182,11942813,11824914,12275351,13096078,14259592,14760864,16074102,16291878,17840393,18226397,19029121,19328098,19846786,19280560,19583504,18157343,20439703,25124348,29602110,30640949,31623446,33871304,33799786,32153320,31102720,30912254,30862955,30092804,29077326,27846560,27425808,27405685,28090345,28504877,29605560,30648939,30558611,32055229,33332474,34788273,38196289,38179420,40230511,49543953,54801163,49779190,48522957,43249245,40809910,44986481,52168671,55148125,55081909,56493916,56797649,57109058,56979351,52121773,47067616,47594681,48671207,53389690,55067406,56427425,56507744,56878021,57100979,57770706,57909256,58282818,58282047,57740593,55174248,55538670,57021652,58263493,58630272,57246517,56949173,56309387,55729664,55129978,54602406,54868523,56310452,53258911,50898521,48081871,45972912,44340797,41854538,37139084,35694016,35537712,33385651,31646828,29552464,28023699,25077864,22861446,20220924,17745712,16265549,14898501},
{-30149969,-29834257,-28951614,-23823967,-17582438,-15388402,-13974579,-13357957,-14187931,-10786681,-5799116,-4454861,-3513544,-380709,4820981,9555046,11595227,9882705,7939455,12392225,12503483,8901421,7762573,8320196,9143069,9819002,10663662,11637974,13178267,14705598,15953204,18533426,20989460,24836033,24767420,25820354,26357866,27095194,27563997,27984919,27324692,26810188,26347960,25443130,24774092,24866276,23578089,22886501,23136820,22463421,21912048,20671993,20339336,18808697,17382128,17331020,16301125,16033306,15567024,15567680,15719568,15547072,15638099,15402559,15166171,14468260,14000496,13124836,12992030,13229584,12927270,12535549,12848289,12847096,12593914,12484779,12775636,12478399,12524113,12615541,13237495,14374830,14927284,15544284,15904053,17485165,18506332,18769276,18973196,19396101,19505402,19166168,18151903,20050489,24042606,28878044,29411179,30713623,31085794,30750879,30026726,29221386,29477676,29393908,29474331,28356983,28052174,27845392,27346460,27399061,27810968,28439634,29009054,29044254,30173664,31179529,32792805,35149162,36624043,40108047,48091465,53417408,50500778,50958939,45147083,40423615,41899288,50628674,55784962,55142345,55510464,55989307,57863091,57061970,49666302,45676994,47296230,47956917,53434502,54070572,55324162,54980816,56122421,56269653,57254124,57445072,57483658,57094830,57439796,56776913,55586624,56326336,56978039,57028484,55425999,56357784,54671185,54692978,54233582,52674477,52574795,54389771,53175022,50810009,47922424,45891956,44004776,42341686,37809357,36854649,36874268,33712708,31546970,29691582,28271700,25171700,22937536,20261665,17741163,16248573,14898501},
{-30149969,-29837324,-28893591,-23656631,-17469698,-15261859,-13904743,-13582603,-14142398,-10500978,-5938444,-4759274,-3565121,-509256,4599373,9769580,13282180,12241761,8547421,12144212,12916592,9615733,8017460,8629814,9446976,10191164,10841468,11568229,12974864,14110536,16149290,18196083,21215630,24161493,25054235,26174253,27160162,27543747,28221315,28232479,27387766,26037558,25592033,25099157,24041161,24667299,23283464,22240360,22431856,22105089,21057791,20254807,19575882,18861792,17169754,16927046,16644234,16516253,16063948,16195452,16103830,16139235,16286495,16040518,15772105,14914429,14276228,13695846,13520293,13498076,13154500,12835906,12654617,12764017,14024520,12927333,13301221,15661028,12387383,12761313,13300176,14188490,14686581,15241962,16337582,17359190,18208450,18452988,18416424,18822054,19513906,18824272,18407152,19646185,23333473,27433886,29237131,30212442,30350006,29315763,28732584,29043825,29460854,28911549,28834322,28254375,27931660,28178062,27119661,26833092,27465191,27706047,27355097,27828369,30108999,30302576,31667965,33792313,36502048,40535641,47681633,53161510,55800014,52601219,46115574,40679165,41981468,47462021,55166134,54284977,54636917,56085419,56890049,57464314,47858074,44993282,46818024,47966251,52461571,52908459,54011070,54714863,54722813,56280674,56755436,56275440,56083118,56152721,56049358,55941383,55202198,55084911,55807819,55327141,53328514,54104156,53667450,53017784,52574680,51977364,51697212,53741745,53050991,50680855,47837372,45757061,43518414,42076038,38746620,37489227,37034935,34105492,31401531,29995665,28514132,25279922,22998787,20297819,17737770,16233465,14898501},
{-30149969,-29838514,-28828896,-23487793,-17355995,-15127528,-13835624,-13778852,-14000586,-10071408,-6029137,-5122911,-3587483,-515955,4550423,10056123,14155547,13875583,9005825,12082243,13409571,9648386,8684161,9061438,9792073,10593791,11208881,11715136,12721789,14250571,15714363,18237579,21018646,24407141,25078703,26551535,27092657,27805527,28214144,27682240,27011562,25671457,24757788,24656351,23738590,24226416,22971792,22011095,21968184,20567616,20005013,19439926,18964685,18153746,17822037,17893425,17033657,17805912,16791948,16769373,16864079,16779518,16914829,16771170,16461243,15714946,14795990,14418092,13939153,13388854,13582542,12812892,12902333,13216110,13058619,13182860,13327400,13534481,12803730,12816931,13447599,14353157,15177691,15644606,15770667,17106911,18003174,18024353,17873569,18453192,18884516,18283079,19194084,19260349,22487753,25766739,27332680,28378876,29082148,28516735,28074165,29490070,28997007,28313599,28457100,28327969,28026155,27498978,27181776,26386938,27359774,27321321,26210505,26311829,28636852,30286104,31859564,34021793,36679028,40717632,46479950,49944324,54002419,55163242,48019711,44366123,42651451,47211399,52626945,54608418,53704323,54333961,54785667,56410114,50379272,44710453,46086365,50160183,51783138,52036667,53474880,54465786,54838787,55008232,55637878,55744743,55612122,55417614,55489910,54983185,54606140,53154152,54383060,53460114,52380127,53648880,53615391,52344482,51352146,51265018,51884731,54154030,52891907,50384392,47698799,45588985,43182625,41512432,39301144,37284527,36708374,33797043,31095522,30682514,28588488,25342138,23024693,20333755,17735308,16220482,14898501},
{-30149969,-29837749,-28757742,-23315510,-17248716,-15002798,-13776022,-13945151,-13772230,-9504631,-6038638,-5473155,-3567298,-397887,4674020,10454816,14779653,14644136,9476306,12210083,13472934,9397870,9388282,9639482,10273435,10872156,11192149,11723001,12803896,14268138,15583721,18387827,20390100,24158920,26057766,26592842,27697737,28312077,27865814,27521215,26550508,25261066,24384064,24298222,23449396,23955936,22472149,21370770,21465824,20160131,19094521,18968067,17600014,17666658,17750776,17043972,17660583,17772772,18125944,17663506,17825445,17738831,17478125,17618679,17221951,16745783,15705888,15339166,14528731,14228122,14037361,13493518,13283348,13213913,13198245,14143634,13079439,13078270,12835771,12769169,13387823,14258405,15031562,15969661,16139812,17057533,17944397,17813791,17868429,18088625,18219233,18027164,19027264,17991541,20410795,23785784,26950348,27765736,27554237,27253450,27162325,27751444,28112318,28430250,29331034,29167816,28479876,28042336,27084757,26588799,27152851,27481558,25823193,25961460,27691587,29543779,31668665,33645317,36284599,40441128,43986725,48201096,51102528,52130802,52284767,49121964,46106915,49143173,50752872,53872398,52262016,54123062,53900265,53873386,45856110,44520996,48315941,49755035,50624496,50941181,52357056,53443714,54269894,55302353,54348923,54574089,54396088,54101471,53006760,53659000,53625843,51626560,52342175,52220497,52067547,52973724,51891426,51746597,51039070,50600681,51764698,53791851,52619564,50060146,47388821,45361691,42610813,41055031,38949455,36911930,36407448,33267349,31026314,30946880,28541212,25413315,23010588,20367737,17731670,16209503,14898501},
{-30149969,-29835039,-28680010,-23141632,-17144777,-14884013,-13729982,-14062921,-13440130,-8820338,-5943999,-5794815,-3464026,-149962,4932833,10909081,14955689,14670270,9638818,12521118,13342899,9004874,9630599,10315386,10727288,11264736,11582948,11992836,13005576,14465465,15790716,18035654,20758266,23558783,25014334,26876926,27903311,28137716,27637342,27314598,26232336,24877775,23895950,23646160,23158281,22355492,21893518,21904039,20282551,19858101,18788889,17722803,16755646,16624510,17321678,17260178,17082516,19754837,18650274,18231409,18671637,18521933,18280859,18285587,18149609,17610235,16482386,16281975,15463782,15067053,14772789,14318863,13723348,13501532,13434803,13395718,12966415,13053157,12296363,12102352,12538452,14144298,15303587,16220068,16771944,16683741,17683737,17729292,17615942,17731129,17893044,17896252,17914732,18398731,19636133,24834143,27363894,27578619,27944225,27298391,26765699,26512451,26984859,27176025,26583946,28353415,28816269,28759312,27462303,26938734,26464403,27153490,25692287,26092302,26774126,28446400,30626345,32426296,34484680,38100044,41630547,45738338,48082081,51611195,51828060,49958645,48354893,51582027,51563816,53504696,52361591,53525372,54876049,51559380,46349022,45951908,49114250,49271629,49760189,50528004,50404255,51024502,52423714,53232864,52902004,53075954,52420174,52223946,50195843,52416885,53125626,50617870,50130035,51524925,52067169,52126865,52001160,51178604,50889122,50770023,51166126,52746479,52421852,49695648,47211819,45012508,41987900,40701279,38648903,36833542,36088940,33120033,31636503,30708462,28483526,25610979,22979279,20394981,17723135,16200172,14898501},
{-30149969,-29830486,-28595556,-22968939,-17044834,-14787889,-13680799,-14134902,-13022023,-8049228,-5728186,-5986372,-3268181,217497,5249288,11323754,14921631,14294762,9931460,12969738,13533587,9113456,9722258,10582295,11013138,11721001,12135249,12356910,13155511,14318849,15634380,17877598,21199589,23036430,24990122,27616655,27727404,27592144,27345678,26803974,25910345,24686401,23722723,23206989,22856085,21866823,22976597,20144323,19313751,18843010,18008060,17187946,16175154,16326790,16745413,17447039,18110865,18713844,19277065,19155245,19204090,19373770,19266323,19106735,18659073,18429398,16803219,16792229,15846129,15562738,15571632,15324684,14868378,14100751,13956003,13559333,12982307,12527545,11896601,11715476,12836500,14009220,15387756,16328493,17112997,17077230,18115898,17926718,18009039,17748592,17542526,17610765,17175026,17687761,20246771,24967150,26763187,27824875,26851753,25721827,25513420,25872169,26556479,26375219,25415318,25846638,28403805,28277815,28811243,28177145,28757750,29224485,27688597,27163637,26494137,27440521,28535023,30017410,31418308,36279842,38982750,43295944,47074753,49759033,50629700,49971706,47229450,50349407,51845142,52565620,52926762,53370300,52315235,50753544,48978558,47515903,48159828,48385021,49024929,49209183,48228741,48219883,49416878,51318947,51450405,51110878,50031292,50221321,49008057,50516907,50774254,51164337,49635574,50618675,51590431,51776855,51445602,50768375,50715084,49220024,50542130,51811676,52030636,49407555,47187176,44563488,41833847,40898968,38690941,37134636,36067322,33462452,32217922,30249619,28281281,25942257,22975010,20411860,17706799,16192059,14898501},
{-30149969,-29824272,-28504904,-22794462,-16955612,-14703480,-13629780,-14130902,-12555737,-7238558,-5407881,-6064005,-2999209,704153,5594463,11618186,14774516,14157898,10612910,13498823,13886695,9400142,9884544,10799356,11623060,12388387,12855449,12842173,13194496,14069663,15420082,17839695,20983532,22700130,24952021,26899586,27850216,27478638,27001810,26776997,25415524,24057556,23520170,22906445,22749859,21450684,21275801,18705256,18745832,17542130,17764883,17115894,16533838,16239811,17171364,17749882,18295786,18549305,19683289,20320780,20387167,20517756,20197052,19860981,19388157,19068817,17971735,17720436,17016855,16104599,16154648,15978612,15206500,14563649,13995775,13663129,12994375,12216003,11358410,11697601,12643612,12961514,14664222,16313623,17250801,17561167,18030073,18457886,18564634,17807022,17381847,17377895,16629219,17075254,18729328,21903708,26258453,26070339,25814371,25031412,24498800,24906321,25643770,26523432,25006506,24223467,27111135,27658611,28647951,29751451,30119993,29434357,28907360,27587126,27796072,27238487,26719870,27226679,29547737,32922134,36883301,41479660,44082314,48050621,49711334,49965073,46295956,46975956,50634571,52270786,53059814,52001705,50834652,52079926,48532703,46913364,47514362,47696465,48229980,48153755,46281952,46393051,48080463,48596001,48247887,48440521,48193295,48457481,48405800,48123665,49347961,50542358,50156124,49691299,50939892,51400723,50725578,50511398,49455395,49194111,49692787,51143482,51214821,49255409,46917732,44025707,42844612,41390949,38719700,37523582,36207436,33952541,32075527,29896292,28043407,26192259,23026123,20422613,17683510,16184832,14898501},
