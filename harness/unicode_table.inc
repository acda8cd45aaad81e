// generated by tools/gen_unicode.py from unicodedata 15.0.0
static const unsigned kUpper[][2] = {
{97,65},{98,66},{99,67},{100,68},{101,69},{102,70},{103,71},{104,72},{105,73},{106,74},{107,75},{108,76},{109,77},{110,78},{111,79},{112,80},{113,81},{114,82},{115,83},{116,84},{117,85},{118,86},{119,87},{120,88},{121,89},{122,90},{181,924},{224,192},{225,193},{226,194},{227,195},{228,196},{229,197},{230,198},{231,199},{232,200},{233,201},{234,202},{235,203},{236,204},{237,205},{238,206},{239,207},{240,208},{241,209},{242,210},{243,211},{244,212},{245,213},{246,214},{248,216},{249,217},{250,218},{251,219},{252,220},{253,221},{254,222},{255,376},{257,256},{259,258},{261,260},{263,262},{265,264},{267,266},{269,268},{271,270},{273,272},{275,274},{277,276},{279,278},{281,280},{283,282},{285,284},{287,286},{289,288},{291,290},{293,292},{295,294},{297,296},{299,298},{301,300},{303,302},{305,73},{307,306},{309,308},{311,310},{314,313},{316,315},{318,317},{320,319},{322,321},{324,323},{326,325},{328,327},{331,330},{333,332},{335,334},{337,336},{339,338},{341,340},{343,342},{345,344},{347,346},{349,348},{351,350},{353,352},{355,354},{357,356},{359,358},{361,360},{363,362},{365,364},{367,366},{369,368},{371,370},{373,372},{375,374},{378,377},{380,379},{382,381},{383,83},{384,579},{387,386},{389,388},{392,391},{396,395},{402,401},{405,502},{409,408},{410,573},{414,544},{417,416},{419,418},{421,420},{424,423},{429,428},{432,431},{436,435},{438,437},{441,440},{445,444},{447,503},{453,452},{454,452},{456,455},{457,455},{459,458},{460,458},{462,461},{464,463},{466,465},{468,467},{470,469},{472,471},{474,473},{476,475},{477,398},{479,478},{481,480},{483,482},{485,484},{487,486},{489,488},{491,490},{493,492},{495,494},{498,497},{499,497},{501,500},{505,504},{507,506},{509,508},{511,510},{513,512},{515,514},{517,516},{519,518},{521,520},{523,522},{525,524},{527,526},{529,528},{531,530},{533,532},{535,534},{537,536},{539,538},{541,540},{543,542},{547,546},{549,548},{551,550},{553,552},{555,554},{557,556},{559,558},{561,560},{563,562},{572,571},{575,11390},{576,11391},{578,577},{583,582},{585,584},{587,586},{589,588},{591,590},{592,11375},{593,11373},{594,11376},{595,385},{596,390},{598,393},{599,394},{601,399},{603,400},{604,42923},{608,403},{609,42924},{611,404},{613,42893},{614,42922},{616,407},{617,406},{618,42926},{619,11362},{620,42925},{623,412},{625,11374},{626,413},{629,415},{637,11364},{640,422},{642,42949},{643,425},{647,42929},{648,430},{649,580},{650,433},{651,434},{652,581},{658,439},{669,42930},{670,42928},{837,921},{881,880},{883,882},{887,886},{891,1021},{892,1022},{893,1023},{940,902},{941,904},{942,905},{943,906},{945,913},{946,914},{947,915},{948,916},{949,917},{950,918},{951,919},{952,920},{953,921},{954,922},{955,923},{956,924},{957,925},{958,926},{959,927},{960,928},{961,929},{962,931},{963,931},{964,932},{965,933},{966,934},{967,935},{968,936},{969,937},{970,938},{971,939},{972,908},{973,910},{974,911},{976,914},{977,920},{981,934},{982,928},{983,975},{985,984},{987,986},{989,988},{991,990},{993,992},{995,994},{997,996},{999,998},{1001,1000},{1003,1002},{1005,1004},{1007,1006},{1008,922},{1009,929},{1010,1017},{1011,895},{1013,917},{1016,1015},{1019,1018},{1072,1040},{1073,1041},{1074,1042},{1075,1043},{1076,1044},{1077,1045},{1078,1046},{1079,1047},{1080,1048},{1081,1049},{1082,1050},{1083,1051},{1084,1052},{1085,1053},{1086,1054},{1087,1055},{1088,1056},{1089,1057},{1090,1058},{1091,1059},{1092,1060},{1093,1061},{1094,1062},{1095,1063},{1096,1064},{1097,1065},{1098,1066},{1099,1067},{1100,1068},{1101,1069},{1102,1070},{1103,1071},{1104,1024},{1105,1025},{1106,1026},{1107,1027},{1108,1028},{1109,1029},{1110,1030},{1111,1031},{1112,1032},{1113,1033},{1114,1034},{1115,1035},{1116,1036},{1117,1037},{1118,1038},{1119,1039},{1121,1120},{1123,1122},{1125,1124},{1127,1126},{1129,1128},{1131,1130},{1133,1132},{1135,1134},{1137,1136},{1139,1138},{1141,1140},{1143,1142},{1145,1144},{1147,1146},{1149,1148},{1151,1150},{1153,1152},{1163,1162},{1165,1164},{1167,1166},{1169,1168},{1171,1170},{1173,1172},{1175,1174},{1177,1176},{1179,1178},{1181,1180},{1183,1182},{1185,1184},{1187,1186},{1189,1188},{1191,1190},{1193,1192},{1195,1194},{1197,1196},{1199,1198},{1201,1200},{1203,1202},{1205,1204},{1207,1206},{1209,1208},{1211,1210},{1213,1212},{1215,1214},{1218,1217},{1220,1219},{1222,1221},{1224,1223},{1226,1225},{1228,1227},{1230,1229},{1231,1216},{1233,1232},{1235,1234},{1237,1236},{1239,1238},{1241,1240},{1243,1242},{1245,1244},{1247,1246},{1249,1248},{1251,1250},{1253,1252},{1255,1254},{1257,1256},{1259,1258},{1261,1260},{1263,1262},{1265,1264},{1267,1266},{1269,1268},{1271,1270},{1273,1272},{1275,1274},{1277,1276},{1279,1278},{1281,1280},{1283,1282},{1285,1284},{1287,1286},{1289,1288},{1291,1290},{1293,1292},{1295,1294},{1297,1296},{1299,1298},{1301,1300},{1303,1302},{1305,1304},{1307,1306},{1309,1308},{1311,1310},{1313,1312},{1315,1314},{1317,1316},{1319,1318},{1321,1320},{1323,1322},{1325,1324},{1327,1326},{1377,1329},{1378,1330},{1379,1331},{1380,1332},{1381,1333},{1382,1334},{1383,1335},{1384,1336},{1385,1337},{1386,1338},{1387,1339},{1388,1340},{1389,1341},{1390,1342},{1391,1343},{1392,1344},{1393,1345},{1394,1346},{1395,1347},{1396,1348},{1397,1349},{1398,1350},{1399,1351},{1400,1352},{1401,1353},{1402,1354},{1403,1355},{1404,1356},{1405,1357},{1406,1358},{1407,1359},{1408,1360},{1409,1361},{1410,1362},{1411,1363},{1412,1364},{1413,1365},{1414,1366},{4304,7312},{4305,7313},{4306,7314},{4307,7315},{4308,7316},{4309,7317},{4310,7318},{4311,7319},{4312,7320},{4313,7321},{4314,7322},{4315,7323},{4316,7324},{4317,7325},{4318,7326},{4319,7327},{4320,7328},{4321,7329},{4322,7330},{4323,7331},{4324,7332},{4325,7333},{4326,7334},{4327,7335},{4328,7336},{4329,7337},{4330,7338},{4331,7339},{4332,7340},{4333,7341},{4334,7342},{4335,7343},{4336,7344},{4337,7345},{4338,7346},{4339,7347},{4340,7348},{4341,7349},{4342,7350},{4343,7351},{4344,7352},{4345,7353},{4346,7354},{4349,7357},{4350,7358},{4351,7359},{5112,5104},{5113,5105},{5114,5106},{5115,5107},{5116,5108},{5117,5109},{7296,1042},{7297,1044},{7298,1054},{7299,1057},{7300,1058},{7301,1058},{7302,1066},{7303,1122},{7304,42570},{7545,42877},{7549,11363},{7566,42950},{7681,7680},{7683,7682},{7685,7684},{7687,7686},{7689,7688},{7691,7690},{7693,7692},{7695,7694},{7697,7696},{7699,7698},{7701,7700},{7703,7702},{7705,7704},{7707,7706},{7709,7708},{7711,7710},{7713,7712},{7715,7714},{7717,7716},{7719,7718},{7721,7720},{7723,7722},{7725,7724},{7727,7726},{7729,7728},{7731,7730},{7733,7732},{7735,7734},{7737,7736},{7739,7738},{7741,7740},{7743,7742},{7745,7744},{7747,7746},{7749,7748},{7751,7750},{7753,7752},{7755,7754},{7757,7756},{7759,7758},{7761,7760},{7763,7762},{7765,7764},{7767,7766},{7769,7768},{7771,7770},{7773,7772},{7775,7774},{7777,7776},{7779,7778},{7781,7780},{7783,7782},{7785,7784},{7787,7786},{7789,7788},{7791,7790},{7793,7792},{7795,7794},{7797,7796},{7799,7798},{7801,7800},{7803,7802},{7805,7804},{7807,7806},{7809,7808},{7811,7810},{7813,7812},{7815,7814},{7817,7816},{7819,7818},{7821,7820},{7823,7822},{7825,7824},{7827,7826},{7829,7828},{7835,7776},{7841,7840},{7843,7842},{7845,7844},{7847,7846},{7849,7848},{7851,7850},{7853,7852},{7855,7854},{7857,7856},{7859,7858},{7861,7860},{7863,7862},{7865,7864},{7867,7866},{7869,7868},{7871,7870},{7873,7872},{7875,7874},{7877,7876},{7879,7878},{7881,7880},{7883,7882},{7885,7884},{7887,7886},{7889,7888},{7891,7890},{7893,7892},{7895,7894},{7897,7896},{7899,7898},{7901,7900},{7903,7902},{7905,7904},{7907,7906},{7909,7908},{7911,7910},{7913,7912},{7915,7914},{7917,7916},{7919,7918},{7921,7920},{7923,7922},{7925,7924},{7927,7926},{7929,7928},{7931,7930},{7933,7932},{7935,7934},{7936,7944},{7937,7945},{7938,7946},{7939,7947},{7940,7948},{7941,7949},{7942,7950},{7943,7951},{7952,7960},{7953,7961},{7954,7962},{7955,7963},{7956,7964},{7957,7965},{7968,7976},{7969,7977},{7970,7978},{7971,7979},{7972,7980},{7973,7981},{7974,7982},{7975,7983},{7984,7992},{7985,7993},{7986,7994},{7987,7995},{7988,7996},{7989,7997},{7990,7998},{7991,7999},{8000,8008},{8001,8009},{8002,8010},{8003,8011},{8004,8012},{8005,8013},{8017,8025},{8019,8027},{8021,8029},{8023,8031},{8032,8040},{8033,8041},{8034,8042},{8035,8043},{8036,8044},{8037,8045},{8038,8046},{8039,8047},{8048,8122},{8049,8123},{8050,8136},{8051,8137},{8052,8138},{8053,8139},{8054,8154},{8055,8155},{8056,8184},{8057,8185},{8058,8170},{8059,8171},{8060,8186},{8061,8187},{8064,8072},{8065,8073},{8066,8074},{8067,8075},{8068,8076},{8069,8077},{8070,8078},{8071,8079},{8080,8088},{8081,8089},{8082,8090},{8083,8091},{8084,8092},{8085,8093},{8086,8094},{8087,8095},{8096,8104},{8097,8105},{8098,8106},{8099,8107},{8100,8108},{8101,8109},{8102,8110},{8103,8111},{8112,8120},{8113,8121},{8115,8124},{8126,921},{8131,8140},{8144,8152},{8145,8153},{8160,8168},{8161,8169},{8165,8172},{8179,8188},{8526,8498},{8560,8544},{8561,8545},{8562,8546},{8563,8547},{8564,8548},{8565,8549},{8566,8550},{8567,8551},{8568,8552},{8569,8553},{8570,8554},{8571,8555},{8572,8556},{8573,8557},{8574,8558},{8575,8559},{8580,8579},{9424,9398},{9425,9399},{9426,9400},{9427,9401},{9428,9402},{9429,9403},{9430,9404},{9431,9405},{9432,9406},{9433,9407},{9434,9408},{9435,9409},{9436,9410},{9437,9411},{9438,9412},{9439,9413},{9440,9414},{9441,9415},{9442,9416},{9443,9417},{9444,9418},{9445,9419},{9446,9420},{9447,9421},{9448,9422},{9449,9423},{11312,11264},{11313,11265},{11314,11266},{11315,11267},{11316,11268},{11317,11269},{11318,11270},{11319,11271},{11320,11272},{11321,11273},{11322,11274},{11323,11275},{11324,11276},{11325,11277},{11326,11278},{11327,11279},{11328,11280},{11329,11281},{11330,11282},{11331,11283},{11332,11284},{11333,11285},{11334,11286},{11335,11287},{11336,11288},{11337,11289},{11338,11290},{11339,11291},{11340,11292},{11341,11293},{11342,11294},{11343,11295},{11344,11296},{11345,11297},{11346,11298},{11347,11299},{11348,11300},{11349,11301},{11350,11302},{11351,11303},{11352,11304},{11353,11305},{11354,11306},{11355,11307},{11356,11308},{11357,11309},{11358,11310},{11359,11311},{11361,11360},{11365,570},{11366,574},{11368,11367},{11370,11369},{11372,11371},{11379,11378},{11382,11381},{11393,11392},{11395,11394},{11397,11396},{11399,11398},{11401,11400},{11403,11402},{11405,11404},{11407,11406},{11409,11408},{11411,11410},{11413,11412},{11415,11414},{11417,11416},{11419,11418},{11421,11420},{11423,11422},{11425,11424},{11427,11426},{11429,11428},{11431,11430},{11433,11432},{11435,11434},{11437,11436},{11439,11438},{11441,11440},{11443,11442},{11445,11444},{11447,11446},{11449,11448},{11451,11450},{11453,11452},{11455,11454},{11457,11456},{11459,11458},{11461,11460},{11463,11462},{11465,11464},{11467,11466},{11469,11468},{11471,11470},{11473,11472},{11475,11474},{11477,11476},{11479,11478},{11481,11480},{11483,11482},{11485,11484},{11487,11486},{11489,11488},{11491,11490},{11500,11499},{11502,11501},{11507,11506},{11520,4256},{11521,4257},{11522,4258},{11523,4259},{11524,4260},{11525,4261},{11526,4262},{11527,4263},{11528,4264},{11529,4265},{11530,4266},{11531,4267},{11532,4268},{11533,4269},{11534,4270},{11535,4271},{11536,4272},{11537,4273},{11538,4274},{11539,4275},{11540,4276},{11541,4277},{11542,4278},{11543,4279},{11544,4280},{11545,4281},{11546,4282},{11547,4283},{11548,4284},{11549,4285},{11550,4286},{11551,4287},{11552,4288},{11553,4289},{11554,4290},{11555,4291},{11556,4292},{11557,4293},{11559,4295},{11565,4301},{42561,42560},{42563,42562},{42565,42564},{42567,42566},{42569,42568},{42571,42570},{42573,42572},{42575,42574},{42577,42576},{42579,42578},{42581,42580},{42583,42582},{42585,42584},{42587,42586},{42589,42588},{42591,42590},{42593,42592},{42595,42594},{42597,42596},{42599,42598},{42601,42600},{42603,42602},{42605,42604},{42625,42624},{42627,42626},{42629,42628},{42631,42630},{42633,42632},{42635,42634},{42637,42636},{42639,42638},{42641,42640},{42643,42642},{42645,42644},{42647,42646},{42649,42648},{42651,42650},{42787,42786},{42789,42788},{42791,42790},{42793,42792},{42795,42794},{42797,42796},{42799,42798},{42803,42802},{42805,42804},{42807,42806},{42809,42808},{42811,42810},{42813,42812},{42815,42814},{42817,42816},{42819,42818},{42821,42820},{42823,42822},{42825,42824},{42827,42826},{42829,42828},{42831,42830},{42833,42832},{42835,42834},{42837,42836},{42839,42838},{42841,42840},{42843,42842},{42845,42844},{42847,42846},{42849,42848},{42851,42850},{42853,42852},{42855,42854},{42857,42856},{42859,42858},{42861,42860},{42863,42862},{42874,42873},{42876,42875},{42879,42878},{42881,42880},{42883,42882},{42885,42884},{42887,42886},{42892,42891},{42897,42896},{42899,42898},{42900,42948},{42903,42902},{42905,42904},{42907,42906},{42909,42908},{42911,42910},{42913,42912},{42915,42914},{42917,42916},{42919,42918},{42921,42920},{42933,42932},{42935,42934},{42937,42936},{42939,42938},{42941,42940},{42943,42942},{42945,42944},{42947,42946},{42952,42951},{42954,42953},{42961,42960},{42967,42966},{42969,42968},{42998,42997},{43859,42931},{43888,5024},{43889,5025},{43890,5026},{43891,5027},{43892,5028},{43893,5029},{43894,5030},{43895,5031},{43896,5032},{43897,5033},{43898,5034},{43899,5035},{43900,5036},{43901,5037},{43902,5038},{43903,5039},{43904,5040},{43905,5041},{43906,5042},{43907,5043},{43908,5044},{43909,5045},{43910,5046},{43911,5047},{43912,5048},{43913,5049},{43914,5050},{43915,5051},{43916,5052},{43917,5053},{43918,5054},{43919,5055},{43920,5056},{43921,5057},{43922,5058},{43923,5059},{43924,5060},{43925,5061},{43926,5062},{43927,5063},{43928,5064},{43929,5065},{43930,5066},{43931,5067},{43932,5068},{43933,5069},{43934,5070},{43935,5071},{43936,5072},{43937,5073},{43938,5074},{43939,5075},{43940,5076},{43941,5077},{43942,5078},{43943,5079},{43944,5080},{43945,5081},{43946,5082},{43947,5083},{43948,5084},{43949,5085},{43950,5086},{43951,5087},{43952,5088},{43953,5089},{43954,5090},{43955,5091},{43956,5092},{43957,5093},{43958,5094},{43959,5095},{43960,5096},{43961,5097},{43962,5098},{43963,5099},{43964,5100},{43965,5101},{43966,5102},{43967,5103},{65345,65313},{65346,65314},{65347,65315},{65348,65316},{65349,65317},{65350,65318},{65351,65319},{65352,65320},{65353,65321},{65354,65322},{65355,65323},{65356,65324},{65357,65325},{65358,65326},{65359,65327},{65360,65328},{65361,65329},{65362,65330},{65363,65331},{65364,65332},{65365,65333},{65366,65334},{65367,65335},{65368,65336},{65369,65337},{65370,65338},{66600,66560},{66601,66561},{66602,66562},{66603,66563},{66604,66564},{66605,66565},{66606,66566},{66607,66567},{66608,66568},{66609,66569},{66610,66570},{66611,66571},{66612,66572},{66613,66573},{66614,66574},{66615,66575},{66616,66576},{66617,66577},{66618,66578},{66619,66579},{66620,66580},{66621,66581},{66622,66582},{66623,66583},{66624,66584},{66625,66585},{66626,66586},{66627,66587},{66628,66588},{66629,66589},{66630,66590},{66631,66591},{66632,66592},{66633,66593},{66634,66594},{66635,66595},{66636,66596},{66637,66597},{66638,66598},{66639,66599},{66776,66736},{66777,66737},{66778,66738},{66779,66739},{66780,66740},{66781,66741},{66782,66742},{66783,66743},{66784,66744},{66785,66745},{66786,66746},{66787,66747},{66788,66748},{66789,66749},{66790,66750},{66791,66751},{66792,66752},{66793,66753},{66794,66754},{66795,66755},{66796,66756},{66797,66757},{66798,66758},{66799,66759},{66800,66760},{66801,66761},{66802,66762},{66803,66763},{66804,66764},{66805,66765},{66806,66766},{66807,66767},{66808,66768},{66809,66769},{66810,66770},{66811,66771},{66967,66928},{66968,66929},{66969,66930},{66970,66931},{66971,66932},{66972,66933},{66973,66934},{66974,66935},{66975,66936},{66976,66937},{66977,66938},{66979,66940},{66980,66941},{66981,66942},{66982,66943},{66983,66944},{66984,66945},{66985,66946},{66986,66947},{66987,66948},{66988,66949},{66989,66950},{66990,66951},{66991,66952},{66992,66953},{66993,66954},{66995,66956},{66996,66957},{66997,66958},{66998,66959},{66999,66960},{67000,66961},{67001,66962},{67003,66964},{67004,66965},{68800,68736},{68801,68737},{68802,68738},{68803,68739},{68804,68740},{68805,68741},{68806,68742},{68807,68743},{68808,68744},{68809,68745},{68810,68746},{68811,68747},{68812,68748},{68813,68749},{68814,68750},{68815,68751},{68816,68752},{68817,68753},{68818,68754},{68819,68755},{68820,68756},{68821,68757},{68822,68758},{68823,68759},{68824,68760},{68825,68761},{68826,68762},{68827,68763},{68828,68764},{68829,68765},{68830,68766},{68831,68767},{68832,68768},{68833,68769},{68834,68770},{68835,68771},{68836,68772},{68837,68773},{68838,68774},{68839,68775},{68840,68776},{68841,68777},{68842,68778},{68843,68779},{68844,68780},{68845,68781},{68846,68782},{68847,68783},{68848,68784},{68849,68785},{68850,68786},{71872,71840},{71873,71841},{71874,71842},{71875,71843},{71876,71844},{71877,71845},{71878,71846},{71879,71847},{71880,71848},{71881,71849},{71882,71850},{71883,71851},{71884,71852},{71885,71853},{71886,71854},{71887,71855},{71888,71856},{71889,71857},{71890,71858},{71891,71859},{71892,71860},{71893,71861},{71894,71862},{71895,71863},{71896,71864},{71897,71865},{71898,71866},{71899,71867},{71900,71868},{71901,71869},{71902,71870},{71903,71871},{93792,93760},{93793,93761},{93794,93762},{93795,93763},{93796,93764},{93797,93765},{93798,93766},{93799,93767},{93800,93768},{93801,93769},{93802,93770},{93803,93771},{93804,93772},{93805,93773},{93806,93774},{93807,93775},{93808,93776},{93809,93777},{93810,93778},{93811,93779},{93812,93780},{93813,93781},{93814,93782},{93815,93783},{93816,93784},{93817,93785},{93818,93786},{93819,93787},{93820,93788},{93821,93789},{93822,93790},{93823,93791},{125218,125184},{125219,125185},{125220,125186},{125221,125187},{125222,125188},{125223,125189},{125224,125190},{125225,125191},{125226,125192},{125227,125193},{125228,125194},{125229,125195},{125230,125196},{125231,125197},{125232,125198},{125233,125199},{125234,125200},{125235,125201},{125236,125202},{125237,125203},{125238,125204},{125239,125205},{125240,125206},{125241,125207},{125242,125208},{125243,125209},{125244,125210},{125245,125211},{125246,125212},{125247,125213},{125248,125214},{125249,125215},{125250,125216},{125251,125217}};
static const unsigned kLower[][2] = {
{65,97},{66,98},{67,99},{68,100},{69,101},{70,102},{71,103},{72,104},{73,105},{74,106},{75,107},{76,108},{77,109},{78,110},{79,111},{80,112},{81,113},{82,114},{83,115},{84,116},{85,117},{86,118},{87,119},{88,120},{89,121},{90,122},{192,224},{193,225},{194,226},{195,227},{196,228},{197,229},{198,230},{199,231},{200,232},{201,233},{202,234},{203,235},{204,236},{205,237},{206,238},{207,239},{208,240},{209,241},{210,242},{211,243},{212,244},{213,245},{214,246},{216,248},{217,249},{218,250},{219,251},{220,252},{221,253},{222,254},{256,257},{258,259},{260,261},{262,263},{264,265},{266,267},{268,269},{270,271},{272,273},{274,275},{276,277},{278,279},{280,281},{282,283},{284,285},{286,287},{288,289},{290,291},{292,293},{294,295},{296,297},{298,299},{300,301},{302,303},{304,105},{306,307},{308,309},{310,311},{313,314},{315,316},{317,318},{319,320},{321,322},{323,324},{325,326},{327,328},{330,331},{332,333},{334,335},{336,337},{338,339},{340,341},{342,343},{344,345},{346,347},{348,349},{350,351},{352,353},{354,355},{356,357},{358,359},{360,361},{362,363},{364,365},{366,367},{368,369},{370,371},{372,373},{374,375},{376,255},{377,378},{379,380},{381,382},{385,595},{386,387},{388,389},{390,596},{391,392},{393,598},{394,599},{395,396},{398,477},{399,601},{400,603},{401,402},{403,608},{404,611},{406,617},{407,616},{408,409},{412,623},{413,626},{415,629},{416,417},{418,419},{420,421},{422,640},{423,424},{425,643},{428,429},{430,648},{431,432},{433,650},{434,651},{435,436},{437,438},{439,658},{440,441},{444,445},{452,454},{453,454},{455,457},{456,457},{458,460},{459,460},{461,462},{463,464},{465,466},{467,468},{469,470},{471,472},{473,474},{475,476},{478,479},{480,481},{482,483},{484,485},{486,487},{488,489},{490,491},{492,493},{494,495},{497,499},{498,499},{500,501},{502,405},{503,447},{504,505},{506,507},{508,509},{510,511},{512,513},{514,515},{516,517},{518,519},{520,521},{522,523},{524,525},{526,527},{528,529},{530,531},{532,533},{534,535},{536,537},{538,539},{540,541},{542,543},{544,414},{546,547},{548,549},{550,551},{552,553},{554,555},{556,557},{558,559},{560,561},{562,563},{570,11365},{571,572},{573,410},{574,11366},{577,578},{579,384},{580,649},{581,652},{582,583},{584,585},{586,587},{588,589},{590,591},{880,881},{882,883},{886,887},{895,1011},{902,940},{904,941},{905,942},{906,943},{908,972},{910,973},{911,974},{913,945},{914,946},{915,947},{916,948},{917,949},{918,950},{919,951},{920,952},{921,953},{922,954},{923,955},{924,956},{925,957},{926,958},{927,959},{928,960},{929,961},{931,963},{932,964},{933,965},{934,966},{935,967},{936,968},{937,969},{938,970},{939,971},{975,983},{984,985},{986,987},{988,989},{990,991},{992,993},{994,995},{996,997},{998,999},{1000,1001},{1002,1003},{1004,1005},{1006,1007},{1012,952},{1015,1016},{1017,1010},{1018,1019},{1021,891},{1022,892},{1023,893},{1024,1104},{1025,1105},{1026,1106},{1027,1107},{1028,1108},{1029,1109},{1030,1110},{1031,1111},{1032,1112},{1033,1113},{1034,1114},{1035,1115},{1036,1116},{1037,1117},{1038,1118},{1039,1119},{1040,1072},{1041,1073},{1042,1074},{1043,1075},{1044,1076},{1045,1077},{1046,1078},{1047,1079},{1048,1080},{1049,1081},{1050,1082},{1051,1083},{1052,1084},{1053,1085},{1054,1086},{1055,1087},{1056,1088},{1057,1089},{1058,1090},{1059,1091},{1060,1092},{1061,1093},{1062,1094},{1063,1095},{1064,1096},{1065,1097},{1066,1098},{1067,1099},{1068,1100},{1069,1101},{1070,1102},{1071,1103},{1120,1121},{1122,1123},{1124,1125},{1126,1127},{1128,1129},{1130,1131},{1132,1133},{1134,1135},{1136,1137},{1138,1139},{1140,1141},{1142,1143},{1144,1145},{1146,1147},{1148,1149},{1150,1151},{1152,1153},{1162,1163},{1164,1165},{1166,1167},{1168,1169},{1170,1171},{1172,1173},{1174,1175},{1176,1177},{1178,1179},{1180,1181},{1182,1183},{1184,1185},{1186,1187},{1188,1189},{1190,1191},{1192,1193},{1194,1195},{1196,1197},{1198,1199},{1200,1201},{1202,1203},{1204,1205},{1206,1207},{1208,1209},{1210,1211},{1212,1213},{1214,1215},{1216,1231},{1217,1218},{1219,1220},{1221,1222},{1223,1224},{1225,1226},{1227,1228},{1229,1230},{1232,1233},{1234,1235},{1236,1237},{1238,1239},{1240,1241},{1242,1243},{1244,1245},{1246,1247},{1248,1249},{1250,1251},{1252,1253},{1254,1255},{1256,1257},{1258,1259},{1260,1261},{1262,1263},{1264,1265},{1266,1267},{1268,1269},{1270,1271},{1272,1273},{1274,1275},{1276,1277},{1278,1279},{1280,1281},{1282,1283},{1284,1285},{1286,1287},{1288,1289},{1290,1291},{1292,1293},{1294,1295},{1296,1297},{1298,1299},{1300,1301},{1302,1303},{1304,1305},{1306,1307},{1308,1309},{1310,1311},{1312,1313},{1314,1315},{1316,1317},{1318,1319},{1320,1321},{1322,1323},{1324,1325},{1326,1327},{1329,1377},{1330,1378},{1331,1379},{1332,1380},{1333,1381},{1334,1382},{1335,1383},{1336,1384},{1337,1385},{1338,1386},{1339,1387},{1340,1388},{1341,1389},{1342,1390},{1343,1391},{1344,1392},{1345,1393},{1346,1394},{1347,1395},{1348,1396},{1349,1397},{1350,1398},{1351,1399},{1352,1400},{1353,1401},{1354,1402},{1355,1403},{1356,1404},{1357,1405},{1358,1406},{1359,1407},{1360,1408},{1361,1409},{1362,1410},{1363,1411},{1364,1412},{1365,1413},{1366,1414},{4256,11520},{4257,11521},{4258,11522},{4259,11523},{4260,11524},{4261,11525},{4262,11526},{4263,11527},{4264,11528},{4265,11529},{4266,11530},{4267,11531},{4268,11532},{4269,11533},{4270,11534},{4271,11535},{4272,11536},{4273,11537},{4274,11538},{4275,11539},{4276,11540},{4277,11541},{4278,11542},{4279,11543},{4280,11544},{4281,11545},{4282,11546},{4283,11547},{4284,11548},{4285,11549},{4286,11550},{4287,11551},{4288,11552},{4289,11553},{4290,11554},{4291,11555},{4292,11556},{4293,11557},{4295,11559},{4301,11565},{5024,43888},{5025,43889},{5026,43890},{5027,43891},{5028,43892},{5029,43893},{5030,43894},{5031,43895},{5032,43896},{5033,43897},{5034,43898},{5035,43899},{5036,43900},{5037,43901},{5038,43902},{5039,43903},{5040,43904},{5041,43905},{5042,43906},{5043,43907},{5044,43908},{5045,43909},{5046,43910},{5047,43911},{5048,43912},{5049,43913},{5050,43914},{5051,43915},{5052,43916},{5053,43917},{5054,43918},{5055,43919},{5056,43920},{5057,43921},{5058,43922},{5059,43923},{5060,43924},{5061,43925},{5062,43926},{5063,43927},{5064,43928},{5065,43929},{5066,43930},{5067,43931},{5068,43932},{5069,43933},{5070,43934},{5071,43935},{5072,43936},{5073,43937},{5074,43938},{5075,43939},{5076,43940},{5077,43941},{5078,43942},{5079,43943},{5080,43944},{5081,43945},{5082,43946},{5083,43947},{5084,43948},{5085,43949},{5086,43950},{5087,43951},{5088,43952},{5089,43953},{5090,43954},{5091,43955},{5092,43956},{5093,43957},{5094,43958},{5095,43959},{5096,43960},{5097,43961},{5098,43962},{5099,43963},{5100,43964},{5101,43965},{5102,43966},{5103,43967},{5104,5112},{5105,5113},{5106,5114},{5107,5115},{5108,5116},{5109,5117},{7312,4304},{7313,4305},{7314,4306},{7315,4307},{7316,4308},{7317,4309},{7318,4310},{7319,4311},{7320,4312},{7321,4313},{7322,4314},{7323,4315},{7324,4316},{7325,4317},{7326,4318},{7327,4319},{7328,4320},{7329,4321},{7330,4322},{7331,4323},{7332,4324},{7333,4325},{7334,4326},{7335,4327},{7336,4328},{7337,4329},{7338,4330},{7339,4331},{7340,4332},{7341,4333},{7342,4334},{7343,4335},{7344,4336},{7345,4337},{7346,4338},{7347,4339},{7348,4340},{7349,4341},{7350,4342},{7351,4343},{7352,4344},{7353,4345},{7354,4346},{7357,4349},{7358,4350},{7359,4351},{7680,7681},{7682,7683},{7684,7685},{7686,7687},{7688,7689},{7690,7691},{7692,7693},{7694,7695},{7696,7697},{7698,7699},{7700,7701},{7702,7703},{7704,7705},{7706,7707},{7708,7709},{7710,7711},{7712,7713},{7714,7715},{7716,7717},{7718,7719},{7720,7721},{7722,7723},{7724,7725},{7726,7727},{7728,7729},{7730,7731},{7732,7733},{7734,7735},{7736,7737},{7738,7739},{7740,7741},{7742,7743},{7744,7745},{7746,7747},{7748,7749},{7750,7751},{7752,7753},{7754,7755},{7756,7757},{7758,7759},{7760,7761},{7762,7763},{7764,7765},{7766,7767},{7768,7769},{7770,7771},{7772,7773},{7774,7775},{7776,7777},{7778,7779},{7780,7781},{7782,7783},{7784,7785},{7786,7787},{7788,7789},{7790,7791},{7792,7793},{7794,7795},{7796,7797},{7798,7799},{7800,7801},{7802,7803},{7804,7805},{7806,7807},{7808,7809},{7810,7811},{7812,7813},{7814,7815},{7816,7817},{7818,7819},{7820,7821},{7822,7823},{7824,7825},{7826,7827},{7828,7829},{7838,223},{7840,7841},{7842,7843},{7844,7845},{7846,7847},{7848,7849},{7850,7851},{7852,7853},{7854,7855},{7856,7857},{7858,7859},{7860,7861},{7862,7863},{7864,7865},{7866,7867},{7868,7869},{7870,7871},{7872,7873},{7874,7875},{7876,7877},{7878,7879},{7880,7881},{7882,7883},{7884,7885},{7886,7887},{7888,7889},{7890,7891},{7892,7893},{7894,7895},{7896,7897},{7898,7899},{7900,7901},{7902,7903},{7904,7905},{7906,7907},{7908,7909},{7910,7911},{7912,7913},{7914,7915},{7916,7917},{7918,7919},{7920,7921},{7922,7923},{7924,7925},{7926,7927},{7928,7929},{7930,7931},{7932,7933},{7934,7935},{7944,7936},{7945,7937},{7946,7938},{7947,7939},{7948,7940},{7949,7941},{7950,7942},{7951,7943},{7960,7952},{7961,7953},{7962,7954},{7963,7955},{7964,7956},{7965,7957},{7976,7968},{7977,7969},{7978,7970},{7979,7971},{7980,7972},{7981,7973},{7982,7974},{7983,7975},{7992,7984},{7993,7985},{7994,7986},{7995,7987},{7996,7988},{7997,7989},{7998,7990},{7999,7991},{8008,8000},{8009,8001},{8010,8002},{8011,8003},{8012,8004},{8013,8005},{8025,8017},{8027,8019},{8029,8021},{8031,8023},{8040,8032},{8041,8033},{8042,8034},{8043,8035},{8044,8036},{8045,8037},{8046,8038},{8047,8039},{8072,8064},{8073,8065},{8074,8066},{8075,8067},{8076,8068},{8077,8069},{8078,8070},{8079,8071},{8088,8080},{8089,8081},{8090,8082},{8091,8083},{8092,8084},{8093,8085},{8094,8086},{8095,8087},{8104,8096},{8105,8097},{8106,8098},{8107,8099},{8108,8100},{8109,8101},{8110,8102},{8111,8103},{8120,8112},{8121,8113},{8122,8048},{8123,8049},{8124,8115},{8136,8050},{8137,8051},{8138,8052},{8139,8053},{8140,8131},{8152,8144},{8153,8145},{8154,8054},{8155,8055},{8168,8160},{8169,8161},{8170,8058},{8171,8059},{8172,8165},{8184,8056},{8185,8057},{8186,8060},{8187,8061},{8188,8179},{8486,969},{8490,107},{8491,229},{8498,8526},{8544,8560},{8545,8561},{8546,8562},{8547,8563},{8548,8564},{8549,8565},{8550,8566},{8551,8567},{8552,8568},{8553,8569},{8554,8570},{8555,8571},{8556,8572},{8557,8573},{8558,8574},{8559,8575},{8579,8580},{9398,9424},{9399,9425},{9400,9426},{9401,9427},{9402,9428},{9403,9429},{9404,9430},{9405,9431},{9406,9432},{9407,9433},{9408,9434},{9409,9435},{9410,9436},{9411,9437},{9412,9438},{9413,9439},{9414,9440},{9415,9441},{9416,9442},{9417,9443},{9418,9444},{9419,9445},{9420,9446},{9421,9447},{9422,9448},{9423,9449},{11264,11312},{11265,11313},{11266,11314},{11267,11315},{11268,11316},{11269,11317},{11270,11318},{11271,11319},{11272,11320},{11273,11321},{11274,11322},{11275,11323},{11276,11324},{11277,11325},{11278,11326},{11279,11327},{11280,11328},{11281,11329},{11282,11330},{11283,11331},{11284,11332},{11285,11333},{11286,11334},{11287,11335},{11288,11336},{11289,11337},{11290,11338},{11291,11339},{11292,11340},{11293,11341},{11294,11342},{11295,11343},{11296,11344},{11297,11345},{11298,11346},{11299,11347},{11300,11348},{11301,11349},{11302,11350},{11303,11351},{11304,11352},{11305,11353},{11306,11354},{11307,11355},{11308,11356},{11309,11357},{11310,11358},{11311,11359},{11360,11361},{11362,619},{11363,7549},{11364,637},{11367,11368},{11369,11370},{11371,11372},{11373,593},{11374,625},{11375,592},{11376,594},{11378,11379},{11381,11382},{11390,575},{11391,576},{11392,11393},{11394,11395},{11396,11397},{11398,11399},{11400,11401},{11402,11403},{11404,11405},{11406,11407},{11408,11409},{11410,11411},{11412,11413},{11414,11415},{11416,11417},{11418,11419},{11420,11421},{11422,11423},{11424,11425},{11426,11427},{11428,11429},{11430,11431},{11432,11433},{11434,11435},{11436,11437},{11438,11439},{11440,11441},{11442,11443},{11444,11445},{11446,11447},{11448,11449},{11450,11451},{11452,11453},{11454,11455},{11456,11457},{11458,11459},{11460,11461},{11462,11463},{11464,11465},{11466,11467},{11468,11469},{11470,11471},{11472,11473},{11474,11475},{11476,11477},{11478,11479},{11480,11481},{11482,11483},{11484,11485},{11486,11487},{11488,11489},{11490,11491},{11499,11500},{11501,11502},{11506,11507},{42560,42561},{42562,42563},{42564,42565},{42566,42567},{42568,42569},{42570,42571},{42572,42573},{42574,42575},{42576,42577},{42578,42579},{42580,42581},{42582,42583},{42584,42585},{42586,42587},{42588,42589},{42590,42591},{42592,42593},{42594,42595},{42596,42597},{42598,42599},{42600,42601},{42602,42603},{42604,42605},{42624,42625},{42626,42627},{42628,42629},{42630,42631},{42632,42633},{42634,42635},{42636,42637},{42638,42639},{42640,42641},{42642,42643},{42644,42645},{42646,42647},{42648,42649},{42650,42651},{42786,42787},{42788,42789},{42790,42791},{42792,42793},{42794,42795},{42796,42797},{42798,42799},{42802,42803},{42804,42805},{42806,42807},{42808,42809},{42810,42811},{42812,42813},{42814,42815},{42816,42817},{42818,42819},{42820,42821},{42822,42823},{42824,42825},{42826,42827},{42828,42829},{42830,42831},{42832,42833},{42834,42835},{42836,42837},{42838,42839},{42840,42841},{42842,42843},{42844,42845},{42846,42847},{42848,42849},{42850,42851},{42852,42853},{42854,42855},{42856,42857},{42858,42859},{42860,42861},{42862,42863},{42873,42874},{42875,42876},{42877,7545},{42878,42879},{42880,42881},{42882,42883},{42884,42885},{42886,42887},{42891,42892},{42893,613},{42896,42897},{42898,42899},{42902,42903},{42904,42905},{42906,42907},{42908,42909},{42910,42911},{42912,42913},{42914,42915},{42916,42917},{42918,42919},{42920,42921},{42922,614},{42923,604},{42924,609},{42925,620},{42926,618},{42928,670},{42929,647},{42930,669},{42931,43859},{42932,42933},{42934,42935},{42936,42937},{42938,42939},{42940,42941},{42942,42943},{42944,42945},{42946,42947},{42948,42900},{42949,642},{42950,7566},{42951,42952},{42953,42954},{42960,42961},{42966,42967},{42968,42969},{42997,42998},{65313,65345},{65314,65346},{65315,65347},{65316,65348},{65317,65349},{65318,65350},{65319,65351},{65320,65352},{65321,65353},{65322,65354},{65323,65355},{65324,65356},{65325,65357},{65326,65358},{65327,65359},{65328,65360},{65329,65361},{65330,65362},{65331,65363},{65332,65364},{65333,65365},{65334,65366},{65335,65367},{65336,65368},{65337,65369},{65338,65370},{66560,66600},{66561,66601},{66562,66602},{66563,66603},{66564,66604},{66565,66605},{66566,66606},{66567,66607},{66568,66608},{66569,66609},{66570,66610},{66571,66611},{66572,66612},{66573,66613},{66574,66614},{66575,66615},{66576,66616},{66577,66617},{66578,66618},{66579,66619},{66580,66620},{66581,66621},{66582,66622},{66583,66623},{66584,66624},{66585,66625},{66586,66626},{66587,66627},{66588,66628},{66589,66629},{66590,66630},{66591,66631},{66592,66632},{66593,66633},{66594,66634},{66595,66635},{66596,66636},{66597,66637},{66598,66638},{66599,66639},{66736,66776},{66737,66777},{66738,66778},{66739,66779},{66740,66780},{66741,66781},{66742,66782},{66743,66783},{66744,66784},{66745,66785},{66746,66786},{66747,66787},{66748,66788},{66749,66789},{66750,66790},{66751,66791},{66752,66792},{66753,66793},{66754,66794},{66755,66795},{66756,66796},{66757,66797},{66758,66798},{66759,66799},{66760,66800},{66761,66801},{66762,66802},{66763,66803},{66764,66804},{66765,66805},{66766,66806},{66767,66807},{66768,66808},{66769,66809},{66770,66810},{66771,66811},{66928,66967},{66929,66968},{66930,66969},{66931,66970},{66932,66971},{66933,66972},{66934,66973},{66935,66974},{66936,66975},{66937,66976},{66938,66977},{66940,66979},{66941,66980},{66942,66981},{66943,66982},{66944,66983},{66945,66984},{66946,66985},{66947,66986},{66948,66987},{66949,66988},{66950,66989},{66951,66990},{66952,66991},{66953,66992},{66954,66993},{66956,66995},{66957,66996},{66958,66997},{66959,66998},{66960,66999},{66961,67000},{66962,67001},{66964,67003},{66965,67004},{68736,68800},{68737,68801},{68738,68802},{68739,68803},{68740,68804},{68741,68805},{68742,68806},{68743,68807},{68744,68808},{68745,68809},{68746,68810},{68747,68811},{68748,68812},{68749,68813},{68750,68814},{68751,68815},{68752,68816},{68753,68817},{68754,68818},{68755,68819},{68756,68820},{68757,68821},{68758,68822},{68759,68823},{68760,68824},{68761,68825},{68762,68826},{68763,68827},{68764,68828},{68765,68829},{68766,68830},{68767,68831},{68768,68832},{68769,68833},{68770,68834},{68771,68835},{68772,68836},{68773,68837},{68774,68838},{68775,68839},{68776,68840},{68777,68841},{68778,68842},{68779,68843},{68780,68844},{68781,68845},{68782,68846},{68783,68847},{68784,68848},{68785,68849},{68786,68850},{71840,71872},{71841,71873},{71842,71874},{71843,71875},{71844,71876},{71845,71877},{71846,71878},{71847,71879},{71848,71880},{71849,71881},{71850,71882},{71851,71883},{71852,71884},{71853,71885},{71854,71886},{71855,71887},{71856,71888},{71857,71889},{71858,71890},{71859,71891},{71860,71892},{71861,71893},{71862,71894},{71863,71895},{71864,71896},{71865,71897},{71866,71898},{71867,71899},{71868,71900},{71869,71901},{71870,71902},{71871,71903},{93760,93792},{93761,93793},{93762,93794},{93763,93795},{93764,93796},{93765,93797},{93766,93798},{93767,93799},{93768,93800},{93769,93801},{93770,93802},{93771,93803},{93772,93804},{93773,93805},{93774,93806},{93775,93807},{93776,93808},{93777,93809},{93778,93810},{93779,93811},{93780,93812},{93781,93813},{93782,93814},{93783,93815},{93784,93816},{93785,93817},{93786,93818},{93787,93819},{93788,93820},{93789,93821},{93790,93822},{93791,93823},{125184,125218},{125185,125219},{125186,125220},{125187,125221},{125188,125222},{125189,125223},{125190,125224},{125191,125225},{125192,125226},{125193,125227},{125194,125228},{125195,125229},{125196,125230},{125197,125231},{125198,125232},{125199,125233},{125200,125234},{125201,125235},{125202,125236},{125203,125237},{125204,125238},{125205,125239},{125206,125240},{125207,125241},{125208,125242},{125209,125243},{125210,125244},{125211,125245},{125212,125246},{125213,125247},{125214,125248},{125215,125249},{125216,125250},{125217,125251}};
static const unsigned kCat[][2] = {
{48,3},{49,3},{50,3},{51,3},{52,3},{53,3},{54,3},{55,3},{56,3},{57,3},{65,1},{66,1},{67,1},{68,1},{69,1},{70,1},{71,1},{72,1},{73,1},{74,1},{75,1},{76,1},{77,1},{78,1},{79,1},{80,1},{81,1},{82,1},{83,1},{84,1},{85,1},{86,1},{87,1},{88,1},{89,1},{90,1},{97,2},{98,2},{99,2},{100,2},{101,2},{102,2},{103,2},{104,2},{105,2},{106,2},{107,2},{108,2},{109,2},{110,2},{111,2},{112,2},{113,2},{114,2},{115,2},{116,2},{117,2},{118,2},{119,2},{120,2},{121,2},{122,2},{181,2},{192,1},{193,1},{194,1},{195,1},{196,1},{197,1},{198,1},{199,1},{200,1},{201,1},{202,1},{203,1},{204,1},{205,1},{206,1},{207,1},{208,1},{209,1},{210,1},{211,1},{212,1},{213,1},{214,1},{216,1},{217,1},{218,1},{219,1},{220,1},{221,1},{222,1},{223,2},{224,2},{225,2},{226,2},{227,2},{228,2},{229,2},{230,2},{231,2},{232,2},{233,2},{234,2},{235,2},{236,2},{237,2},{238,2},{239,2},{240,2},{241,2},{242,2},{243,2},{244,2},{245,2},{246,2},{248,2},{249,2},{250,2},{251,2},{252,2},{253,2},{254,2},{255,2},{256,1},{257,2},{258,1},{259,2},{260,1},{261,2},{262,1},{263,2},{264,1},{265,2},{266,1},{267,2},{268,1},{269,2},{270,1},{271,2},{272,1},{273,2},{274,1},{275,2},{276,1},{277,2},{278,1},{279,2},{280,1},{281,2},{282,1},{283,2},{284,1},{285,2},{286,1},{287,2},{288,1},{289,2},{290,1},{291,2},{292,1},{293,2},{294,1},{295,2},{296,1},{297,2},{298,1},{299,2},{300,1},{301,2},{302,1},{303,2},{304,1},{305,2},{306,1},{307,2},{308,1},{309,2},{310,1},{311,2},{312,2},{313,1},{314,2},{315,1},{316,2},{317,1},{318,2},{319,1},{320,2},{321,1},{322,2},{323,1},{324,2},{325,1},{326,2},{327,1},{328,2},{329,2},{330,1},{331,2},{332,1},{333,2},{334,1},{335,2},{336,1},{337,2},{338,1},{339,2},{340,1},{341,2},{342,1},{343,2},{344,1},{345,2},{346,1},{347,2},{348,1},{349,2},{350,1},{351,2},{352,1},{353,2},{354,1},{355,2},{356,1},{357,2},{358,1},{359,2},{360,1},{361,2},{362,1},{363,2},{364,1},{365,2},{366,1},{367,2},{368,1},{369,2},{370,1},{371,2},{372,1},{373,2},{374,1},{375,2},{376,1},{377,1},{378,2},{379,1},{380,2},{381,1},{382,2},{383,2},{384,2},{385,1},{386,1},{387,2},{388,1},{389,2},{390,1},{391,1},{392,2},{393,1},{394,1},{395,1},{396,2},{397,2},{398,1},{399,1},{400,1},{401,1},{402,2},{403,1},{404,1},{405,2},{406,1},{407,1},{408,1},{409,2},{410,2},{411,2},{412,1},{413,1},{414,2},{415,1},{416,1},{417,2},{418,1},{419,2},{420,1},{421,2},{422,1},{423,1},{424,2},{425,1},{426,2},{427,2},{428,1},{429,2},{430,1},{431,1},{432,2},{433,1},{434,1},{435,1},{436,2},{437,1},{438,2},{439,1},{440,1},{441,2},{442,2},{444,1},{445,2},{446,2},{447,2},{452,1},{453,1},{454,2},{455,1},{456,1},{457,2},{458,1},{459,1},{460,2},{461,1},{462,2},{463,1},{464,2},{465,1},{466,2},{467,1},{468,2},{469,1},{470,2},{471,1},{472,2},{473,1},{474,2},{475,1},{476,2},{477,2},{478,1},{479,2},{480,1},{481,2},{482,1},{483,2},{484,1},{485,2},{486,1},{487,2},{488,1},{489,2},{490,1},{491,2},{492,1},{493,2},{494,1},{495,2},{496,2},{497,1},{498,1},{499,2},{500,1},{501,2},{502,1},{503,1},{504,1},{505,2},{506,1},{507,2},{508,1},{509,2},{510,1},{511,2},{512,1},{513,2},{514,1},{515,2},{516,1},{517,2},{518,1},{519,2},{520,1},{521,2},{522,1},{523,2},{524,1},{525,2},{526,1},{527,2},{528,1},{529,2},{530,1},{531,2},{532,1},{533,2},{534,1},{535,2},{536,1},{537,2},{538,1},{539,2},{540,1},{541,2},{542,1},{543,2},{544,1},{545,2},{546,1},{547,2},{548,1},{549,2},{550,1},{551,2},{552,1},{553,2},{554,1},{555,2},{556,1},{557,2},{558,1},{559,2},{560,1},{561,2},{562,1},{563,2},{564,2},{565,2},{566,2},{567,2},{568,2},{569,2},{570,1},{571,1},{572,2},{573,1},{574,1},{575,2},{576,2},{577,1},{578,2},{579,1},{580,1},{581,1},{582,1},{583,2},{584,1},{585,2},{586,1},{587,2},{588,1},{589,2},{590,1},{591,2},{592,2},{593,2},{594,2},{595,2},{596,2},{597,2},{598,2},{599,2},{600,2},{601,2},{602,2},{603,2},{604,2},{605,2},{606,2},{607,2},{608,2},{609,2},{610,2},{611,2},{612,2},{613,2},{614,2},{615,2},{616,2},{617,2},{618,2},{619,2},{620,2},{621,2},{622,2},{623,2},{624,2},{625,2},{626,2},{627,2},{628,2},{629,2},{630,2},{631,2},{632,2},{633,2},{634,2},{635,2},{636,2},{637,2},{638,2},{639,2},{640,2},{641,2},{642,2},{643,2},{644,2},{645,2},{646,2},{647,2},{648,2},{649,2},{650,2},{651,2},{652,2},{653,2},{654,2},{655,2},{656,2},{657,2},{658,2},{659,2},{661,2},{662,2},{663,2},{664,2},{665,2},{666,2},{667,2},{668,2},{669,2},{670,2},{671,2},{672,2},{673,2},{674,2},{675,2},{676,2},{677,2},{678,2},{679,2},{680,2},{681,2},{682,2},{683,2},{684,2},{685,2},{686,2},{687,2},{880,1},{881,2},{882,1},{883,2},{886,1},{887,2},{891,2},{892,2},{893,2},{895,1},{902,1},{904,1},{905,1},{906,1},{908,1},{910,1},{911,1},{912,2},{913,1},{914,1},{915,1},{916,1},{917,1},{918,1},{919,1},{920,1},{921,1},{922,1},{923,1},{924,1},{925,1},{926,1},{927,1},{928,1},{929,1},{931,1},{932,1},{933,1},{934,1},{935,1},{936,1},{937,1},{938,1},{939,1},{940,2},{941,2},{942,2},{943,2},{944,2},{945,2},{946,2},{947,2},{948,2},{949,2},{950,2},{951,2},{952,2},{953,2},{954,2},{955,2},{956,2},{957,2},{958,2},{959,2},{960,2},{961,2},{962,2},{963,2},{964,2},{965,2},{966,2},{967,2},{968,2},{969,2},{970,2},{971,2},{972,2},{973,2},{974,2},{975,1},{976,2},{977,2},{978,1},{979,1},{980,1},{981,2},{982,2},{983,2},{984,1},{985,2},{986,1},{987,2},{988,1},{989,2},{990,1},{991,2},{992,1},{993,2},{994,1},{995,2},{996,1},{997,2},{998,1},{999,2},{1000,1},{1001,2},{1002,1},{1003,2},{1004,1},{1005,2},{1006,1},{1007,2},{1008,2},{1009,2},{1010,2},{1011,2},{1012,1},{1013,2},{1015,1},{1016,2},{1017,1},{1018,1},{1019,2},{1020,2},{1021,1},{1022,1},{1023,1},{1024,1},{1025,1},{1026,1},{1027,1},{1028,1},{1029,1},{1030,1},{1031,1},{1032,1},{1033,1},{1034,1},{1035,1},{1036,1},{1037,1},{1038,1},{1039,1},{1040,1},{1041,1},{1042,1},{1043,1},{1044,1},{1045,1},{1046,1},{1047,1},{1048,1},{1049,1},{1050,1},{1051,1},{1052,1},{1053,1},{1054,1},{1055,1},{1056,1},{1057,1},{1058,1},{1059,1},{1060,1},{1061,1},{1062,1},{1063,1},{1064,1},{1065,1},{1066,1},{1067,1},{1068,1},{1069,1},{1070,1},{1071,1},{1072,2},{1073,2},{1074,2},{1075,2},{1076,2},{1077,2},{1078,2},{1079,2},{1080,2},{1081,2},{1082,2},{1083,2},{1084,2},{1085,2},{1086,2},{1087,2},{1088,2},{1089,2},{1090,2},{1091,2},{1092,2},{1093,2},{1094,2},{1095,2},{1096,2},{1097,2},{1098,2},{1099,2},{1100,2},{1101,2},{1102,2},{1103,2},{1104,2},{1105,2},{1106,2},{1107,2},{1108,2},{1109,2},{1110,2},{1111,2},{1112,2},{1113,2},{1114,2},{1115,2},{1116,2},{1117,2},{1118,2},{1119,2},{1120,1},{1121,2},{1122,1},{1123,2},{1124,1},{1125,2},{1126,1},{1127,2},{1128,1},{1129,2},{1130,1},{1131,2},{1132,1},{1133,2},{1134,1},{1135,2},{1136,1},{1137,2},{1138,1},{1139,2},{1140,1},{1141,2},{1142,1},{1143,2},{1144,1},{1145,2},{1146,1},{1147,2},{1148,1},{1149,2},{1150,1},{1151,2},{1152,1},{1153,2},{1162,1},{1163,2},{1164,1},{1165,2},{1166,1},{1167,2},{1168,1},{1169,2},{1170,1},{1171,2},{1172,1},{1173,2},{1174,1},{1175,2},{1176,1},{1177,2},{1178,1},{1179,2},{1180,1},{1181,2},{1182,1},{1183,2},{1184,1},{1185,2},{1186,1},{1187,2},{1188,1},{1189,2},{1190,1},{1191,2},{1192,1},{1193,2},{1194,1},{1195,2},{1196,1},{1197,2},{1198,1},{1199,2},{1200,1},{1201,2},{1202,1},{1203,2},{1204,1},{1205,2},{1206,1},{1207,2},{1208,1},{1209,2},{1210,1},{1211,2},{1212,1},{1213,2},{1214,1},{1215,2},{1216,1},{1217,1},{1218,2},{1219,1},{1220,2},{1221,1},{1222,2},{1223,1},{1224,2},{1225,1},{1226,2},{1227,1},{1228,2},{1229,1},{1230,2},{1231,2},{1232,1},{1233,2},{1234,1},{1235,2},{1236,1},{1237,2},{1238,1},{1239,2},{1240,1},{1241,2},{1242,1},{1243,2},{1244,1},{1245,2},{1246,1},{1247,2},{1248,1},{1249,2},{1250,1},{1251,2},{1252,1},{1253,2},{1254,1},{1255,2},{1256,1},{1257,2},{1258,1},{1259,2},{1260,1},{1261,2},{1262,1},{1263,2},{1264,1},{1265,2},{1266,1},{1267,2},{1268,1},{1269,2},{1270,1},{1271,2},{1272,1},{1273,2},{1274,1},{1275,2},{1276,1},{1277,2},{1278,1},{1279,2},{1280,1},{1281,2},{1282,1},{1283,2},{1284,1},{1285,2},{1286,1},{1287,2},{1288,1},{1289,2},{1290,1},{1291,2},{1292,1},{1293,2},{1294,1},{1295,2},{1296,1},{1297,2},{1298,1},{1299,2},{1300,1},{1301,2},{1302,1},{1303,2},{1304,1},{1305,2},{1306,1},{1307,2},{1308,1},{1309,2},{1310,1},{1311,2},{1312,1},{1313,2},{1314,1},{1315,2},{1316,1},{1317,2},{1318,1},{1319,2},{1320,1},{1321,2},{1322,1},{1323,2},{1324,1},{1325,2},{1326,1},{1327,2},{1329,1},{1330,1},{1331,1},{1332,1},{1333,1},{1334,1},{1335,1},{1336,1},{1337,1},{1338,1},{1339,1},{1340,1},{1341,1},{1342,1},{1343,1},{1344,1},{1345,1},{1346,1},{1347,1},{1348,1},{1349,1},{1350,1},{1351,1},{1352,1},{1353,1},{1354,1},{1355,1},{1356,1},{1357,1},{1358,1},{1359,1},{1360,1},{1361,1},{1362,1},{1363,1},{1364,1},{1365,1},{1366,1},{1376,2},{1377,2},{1378,2},{1379,2},{1380,2},{1381,2},{1382,2},{1383,2},{1384,2},{1385,2},{1386,2},{1387,2},{1388,2},{1389,2},{1390,2},{1391,2},{1392,2},{1393,2},{1394,2},{1395,2},{1396,2},{1397,2},{1398,2},{1399,2},{1400,2},{1401,2},{1402,2},{1403,2},{1404,2},{1405,2},{1406,2},{1407,2},{1408,2},{1409,2},{1410,2},{1411,2},{1412,2},{1413,2},{1414,2},{1415,2},{1416,2},{1632,3},{1633,3},{1634,3},{1635,3},{1636,3},{1637,3},{1638,3},{1639,3},{1640,3},{1641,3},{1776,3},{1777,3},{1778,3},{1779,3},{1780,3},{1781,3},{1782,3},{1783,3},{1784,3},{1785,3},{1984,3},{1985,3},{1986,3},{1987,3},{1988,3},{1989,3},{1990,3},{1991,3},{1992,3},{1993,3},{2406,3},{2407,3},{2408,3},{2409,3},{2410,3},{2411,3},{2412,3},{2413,3},{2414,3},{2415,3},{2534,3},{2535,3},{2536,3},{2537,3},{2538,3},{2539,3},{2540,3},{2541,3},{2542,3},{2543,3},{2662,3},{2663,3},{2664,3},{2665,3},{2666,3},{2667,3},{2668,3},{2669,3},{2670,3},{2671,3},{2790,3},{2791,3},{2792,3},{2793,3},{2794,3},{2795,3},{2796,3},{2797,3},{2798,3},{2799,3},{2918,3},{2919,3},{2920,3},{2921,3},{2922,3},{2923,3},{2924,3},{2925,3},{2926,3},{2927,3},{3046,3},{3047,3},{3048,3},{3049,3},{3050,3},{3051,3},{3052,3},{3053,3},{3054,3},{3055,3},{3174,3},{3175,3},{3176,3},{3177,3},{3178,3},{3179,3},{3180,3},{3181,3},{3182,3},{3183,3},{3302,3},{3303,3},{3304,3},{3305,3},{3306,3},{3307,3},{3308,3},{3309,3},{3310,3},{3311,3},{3430,3},{3431,3},{3432,3},{3433,3},{3434,3},{3435,3},{3436,3},{3437,3},{3438,3},{3439,3},{3558,3},{3559,3},{3560,3},{3561,3},{3562,3},{3563,3},{3564,3},{3565,3},{3566,3},{3567,3},{3664,3},{3665,3},{3666,3},{3667,3},{3668,3},{3669,3},{3670,3},{3671,3},{3672,3},{3673,3},{3792,3},{3793,3},{3794,3},{3795,3},{3796,3},{3797,3},{3798,3},{3799,3},{3800,3},{3801,3},{3872,3},{3873,3},{3874,3},{3875,3},{3876,3},{3877,3},{3878,3},{3879,3},{3880,3},{3881,3},{4160,3},{4161,3},{4162,3},{4163,3},{4164,3},{4165,3},{4166,3},{4167,3},{4168,3},{4169,3},{4240,3},{4241,3},{4242,3},{4243,3},{4244,3},{4245,3},{4246,3},{4247,3},{4248,3},{4249,3},{4256,1},{4257,1},{4258,1},{4259,1},{4260,1},{4261,1},{4262,1},{4263,1},{4264,1},{4265,1},{4266,1},{4267,1},{4268,1},{4269,1},{4270,1},{4271,1},{4272,1},{4273,1},{4274,1},{4275,1},{4276,1},{4277,1},{4278,1},{4279,1},{4280,1},{4281,1},{4282,1},{4283,1},{4284,1},{4285,1},{4286,1},{4287,1},{4288,1},{4289,1},{4290,1},{4291,1},{4292,1},{4293,1},{4295,1},{4301,1},{4304,2},{4305,2},{4306,2},{4307,2},{4308,2},{4309,2},{4310,2},{4311,2},{4312,2},{4313,2},{4314,2},{4315,2},{4316,2},{4317,2},{4318,2},{4319,2},{4320,2},{4321,2},{4322,2},{4323,2},{4324,2},{4325,2},{4326,2},{4327,2},{4328,2},{4329,2},{4330,2},{4331,2},{4332,2},{4333,2},{4334,2},{4335,2},{4336,2},{4337,2},{4338,2},{4339,2},{4340,2},{4341,2},{4342,2},{4343,2},{4344,2},{4345,2},{4346,2},{4349,2},{4350,2},{4351,2},{5024,1},{5025,1},{5026,1},{5027,1},{5028,1},{5029,1},{5030,1},{5031,1},{5032,1},{5033,1},{5034,1},{5035,1},{5036,1},{5037,1},{5038,1},{5039,1},{5040,1},{5041,1},{5042,1},{5043,1},{5044,1},{5045,1},{5046,1},{5047,1},{5048,1},{5049,1},{5050,1},{5051,1},{5052,1},{5053,1},{5054,1},{5055,1},{5056,1},{5057,1},{5058,1},{5059,1},{5060,1},{5061,1},{5062,1},{5063,1},{5064,1},{5065,1},{5066,1},{5067,1},{5068,1},{5069,1},{5070,1},{5071,1},{5072,1},{5073,1},{5074,1},{5075,1},{5076,1},{5077,1},{5078,1},{5079,1},{5080,1},{5081,1},{5082,1},{5083,1},{5084,1},{5085,1},{5086,1},{5087,1},{5088,1},{5089,1},{5090,1},{5091,1},{5092,1},{5093,1},{5094,1},{5095,1},{5096,1},{5097,1},{5098,1},{5099,1},{5100,1},{5101,1},{5102,1},{5103,1},{5104,1},{5105,1},{5106,1},{5107,1},{5108,1},{5109,1},{5112,2},{5113,2},{5114,2},{5115,2},{5116,2},{5117,2},{6112,3},{6113,3},{6114,3},{6115,3},{6116,3},{6117,3},{6118,3},{6119,3},{6120,3},{6121,3},{6160,3},{6161,3},{6162,3},{6163,3},{6164,3},{6165,3},{6166,3},{6167,3},{6168,3},{6169,3},{6470,3},{6471,3},{6472,3},{6473,3},{6474,3},{6475,3},{6476,3},{6477,3},{6478,3},{6479,3},{6608,3},{6609,3},{6610,3},{6611,3},{6612,3},{6613,3},{6614,3},{6615,3},{6616,3},{6617,3},{6784,3},{6785,3},{6786,3},{6787,3},{6788,3},{6789,3},{6790,3},{6791,3},{6792,3},{6793,3},{6800,3},{6801,3},{6802,3},{6803,3},{6804,3},{6805,3},{6806,3},{6807,3},{6808,3},{6809,3},{6992,3},{6993,3},{6994,3},{6995,3},{6996,3},{6997,3},{6998,3},{6999,3},{7000,3},{7001,3},{7088,3},{7089,3},{7090,3},{7091,3},{7092,3},{7093,3},{7094,3},{7095,3},{7096,3},{7097,3},{7232,3},{7233,3},{7234,3},{7235,3},{7236,3},{7237,3},{7238,3},{7239,3},{7240,3},{7241,3},{7248,3},{7249,3},{7250,3},{7251,3},{7252,3},{7253,3},{7254,3},{7255,3},{7256,3},{7257,3},{7296,2},{7297,2},{7298,2},{7299,2},{7300,2},{7301,2},{7302,2},{7303,2},{7304,2},{7312,1},{7313,1},{7314,1},{7315,1},{7316,1},{7317,1},{7318,1},{7319,1},{7320,1},{7321,1},{7322,1},{7323,1},{7324,1},{7325,1},{7326,1},{7327,1},{7328,1},{7329,1},{7330,1},{7331,1},{7332,1},{7333,1},{7334,1},{7335,1},{7336,1},{7337,1},{7338,1},{7339,1},{7340,1},{7341,1},{7342,1},{7343,1},{7344,1},{7345,1},{7346,1},{7347,1},{7348,1},{7349,1},{7350,1},{7351,1},{7352,1},{7353,1},{7354,1},{7357,1},{7358,1},{7359,1},{7424,2},{7425,2},{7426,2},{7427,2},{7428,2},{7429,2},{7430,2},{7431,2},{7432,2},{7433,2},{7434,2},{7435,2},{7436,2},{7437,2},{7438,2},{7439,2},{7440,2},{7441,2},{7442,2},{7443,2},{7444,2},{7445,2},{7446,2},{7447,2},{7448,2},{7449,2},{7450,2},{7451,2},{7452,2},{7453,2},{7454,2},{7455,2},{7456,2},{7457,2},{7458,2},{7459,2},{7460,2},{7461,2},{7462,2},{7463,2},{7464,2},{7465,2},{7466,2},{7467,2},{7531,2},{7532,2},{7533,2},{7534,2},{7535,2},{7536,2},{7537,2},{7538,2},{7539,2},{7540,2},{7541,2},{7542,2},{7543,2},{7545,2},{7546,2},{7547,2},{7548,2},{7549,2},{7550,2},{7551,2},{7552,2},{7553,2},{7554,2},{7555,2},{7556,2},{7557,2},{7558,2},{7559,2},{7560,2},{7561,2},{7562,2},{7563,2},{7564,2},{7565,2},{7566,2},{7567,2},{7568,2},{7569,2},{7570,2},{7571,2},{7572,2},{7573,2},{7574,2},{7575,2},{7576,2},{7577,2},{7578,2},{7680,1},{7681,2},{7682,1},{7683,2},{7684,1},{7685,2},{7686,1},{7687,2},{7688,1},{7689,2},{7690,1},{7691,2},{7692,1},{7693,2},{7694,1},{7695,2},{7696,1},{7697,2},{7698,1},{7699,2},{7700,1},{7701,2},{7702,1},{7703,2},{7704,1},{7705,2},{7706,1},{7707,2},{7708,1},{7709,2},{7710,1},{7711,2},{7712,1},{7713,2},{7714,1},{7715,2},{7716,1},{7717,2},{7718,1},{7719,2},{7720,1},{7721,2},{7722,1},{7723,2},{7724,1},{7725,2},{7726,1},{7727,2},{7728,1},{7729,2},{7730,1},{7731,2},{7732,1},{7733,2},{7734,1},{7735,2},{7736,1},{7737,2},{7738,1},{7739,2},{7740,1},{7741,2},{7742,1},{7743,2},{7744,1},{7745,2},{7746,1},{7747,2},{7748,1},{7749,2},{7750,1},{7751,2},{7752,1},{7753,2},{7754,1},{7755,2},{7756,1},{7757,2},{7758,1},{7759,2},{7760,1},{7761,2},{7762,1},{7763,2},{7764,1},{7765,2},{7766,1},{7767,2},{7768,1},{7769,2},{7770,1},{7771,2},{7772,1},{7773,2},{7774,1},{7775,2},{7776,1},{7777,2},{7778,1},{7779,2},{7780,1},{7781,2},{7782,1},{7783,2},{7784,1},{7785,2},{7786,1},{7787,2},{7788,1},{7789,2},{7790,1},{7791,2},{7792,1},{7793,2},{7794,1},{7795,2},{7796,1},{7797,2},{7798,1},{7799,2},{7800,1},{7801,2},{7802,1},{7803,2},{7804,1},{7805,2},{7806,1},{7807,2},{7808,1},{7809,2},{7810,1},{7811,2},{7812,1},{7813,2},{7814,1},{7815,2},{7816,1},{7817,2},{7818,1},{7819,2},{7820,1},{7821,2},{7822,1},{7823,2},{7824,1},{7825,2},{7826,1},{7827,2},{7828,1},{7829,2},{7830,2},{7831,2},{7832,2},{7833,2},{7834,2},{7835,2},{7836,2},{7837,2},{7838,1},{7839,2},{7840,1},{7841,2},{7842,1},{7843,2},{7844,1},{7845,2},{7846,1},{7847,2},{7848,1},{7849,2},{7850,1},{7851,2},{7852,1},{7853,2},{7854,1},{7855,2},{7856,1},{7857,2},{7858,1},{7859,2},{7860,1},{7861,2},{7862,1},{7863,2},{7864,1},{7865,2},{7866,1},{7867,2},{7868,1},{7869,2},{7870,1},{7871,2},{7872,1},{7873,2},{7874,1},{7875,2},{7876,1},{7877,2},{7878,1},{7879,2},{7880,1},{7881,2},{7882,1},{7883,2},{7884,1},{7885,2},{7886,1},{7887,2},{7888,1},{7889,2},{7890,1},{7891,2},{7892,1},{7893,2},{7894,1},{7895,2},{7896,1},{7897,2},{7898,1},{7899,2},{7900,1},{7901,2},{7902,1},{7903,2},{7904,1},{7905,2},{7906,1},{7907,2},{7908,1},{7909,2},{7910,1},{7911,2},{7912,1},{7913,2},{7914,1},{7915,2},{7916,1},{7917,2},{7918,1},{7919,2},{7920,1},{7921,2},{7922,1},{7923,2},{7924,1},{7925,2},{7926,1},{7927,2},{7928,1},{7929,2},{7930,1},{7931,2},{7932,1},{7933,2},{7934,1},{7935,2},{7936,2},{7937,2},{7938,2},{7939,2},{7940,2},{7941,2},{7942,2},{7943,2},{7944,1},{7945,1},{7946,1},{7947,1},{7948,1},{7949,1},{7950,1},{7951,1},{7952,2},{7953,2},{7954,2},{7955,2},{7956,2},{7957,2},{7960,1},{7961,1},{7962,1},{7963,1},{7964,1},{7965,1},{7968,2},{7969,2},{7970,2},{7971,2},{7972,2},{7973,2},{7974,2},{7975,2},{7976,1},{7977,1},{7978,1},{7979,1},{7980,1},{7981,1},{7982,1},{7983,1},{7984,2},{7985,2},{7986,2},{7987,2},{7988,2},{7989,2},{7990,2},{7991,2},{7992,1},{7993,1},{7994,1},{7995,1},{7996,1},{7997,1},{7998,1},{7999,1},{8000,2},{8001,2},{8002,2},{8003,2},{8004,2},{8005,2},{8008,1},{8009,1},{8010,1},{8011,1},{8012,1},{8013,1},{8016,2},{8017,2},{8018,2},{8019,2},{8020,2},{8021,2},{8022,2},{8023,2},{8025,1},{8027,1},{8029,1},{8031,1},{8032,2},{8033,2},{8034,2},{8035,2},{8036,2},{8037,2},{8038,2},{8039,2},{8040,1},{8041,1},{8042,1},{8043,1},{8044,1},{8045,1},{8046,1},{8047,1},{8048,2},{8049,2},{8050,2},{8051,2},{8052,2},{8053,2},{8054,2},{8055,2},{8056,2},{8057,2},{8058,2},{8059,2},{8060,2},{8061,2},{8064,2},{8065,2},{8066,2},{8067,2},{8068,2},{8069,2},{8070,2},{8071,2},{8072,1},{8073,1},{8074,1},{8075,1},{8076,1},{8077,1},{8078,1},{8079,1},{8080,2},{8081,2},{8082,2},{8083,2},{8084,2},{8085,2},{8086,2},{8087,2},{8088,1},{8089,1},{8090,1},{8091,1},{8092,1},{8093,1},{8094,1},{8095,1},{8096,2},{8097,2},{8098,2},{8099,2},{8100,2},{8101,2},{8102,2},{8103,2},{8104,1},{8105,1},{8106,1},{8107,1},{8108,1},{8109,1},{8110,1},{8111,1},{8112,2},{8113,2},{8114,2},{8115,2},{8116,2},{8118,2},{8119,2},{8120,1},{8121,1},{8122,1},{8123,1},{8124,1},{8126,2},{8130,2},{8131,2},{8132,2},{8134,2},{8135,2},{8136,1},{8137,1},{8138,1},{8139,1},{8140,1},{8144,2},{8145,2},{8146,2},{8147,2},{8150,2},{8151,2},{8152,1},{8153,1},{8154,1},{8155,1},{8160,2},{8161,2},{8162,2},{8163,2},{8164,2},{8165,2},{8166,2},{8167,2},{8168,1},{8169,1},{8170,1},{8171,1},{8172,1},{8178,2},{8179,2},{8180,2},{8182,2},{8183,2},{8184,1},{8185,1},{8186,1},{8187,1},{8188,1},{8450,1},{8455,1},{8458,2},{8459,1},{8460,1},{8461,1},{8462,2},{8463,2},{8464,1},{8465,1},{8466,1},{8467,2},{8469,1},{8473,1},{8474,1},{8475,1},{8476,1},{8477,1},{8484,1},{8486,1},{8488,1},{8490,1},{8491,1},{8492,1},{8493,1},{8495,2},{8496,1},{8497,1},{8498,1},{8499,1},{8500,2},{8505,2},{8508,2},{8509,2},{8510,1},{8511,1},{8517,1},{8518,2},{8519,2},{8520,2},{8521,2},{8526,2},{8579,1},{8580,2},{11264,1},{11265,1},{11266,1},{11267,1},{11268,1},{11269,1},{11270,1},{11271,1},{11272,1},{11273,1},{11274,1},{11275,1},{11276,1},{11277,1},{11278,1},{11279,1},{11280,1},{11281,1},{11282,1},{11283,1},{11284,1},{11285,1},{11286,1},{11287,1},{11288,1},{11289,1},{11290,1},{11291,1},{11292,1},{11293,1},{11294,1},{11295,1},{11296,1},{11297,1},{11298,1},{11299,1},{11300,1},{11301,1},{11302,1},{11303,1},{11304,1},{11305,1},{11306,1},{11307,1},{11308,1},{11309,1},{11310,1},{11311,1},{11312,2},{11313,2},{11314,2},{11315,2},{11316,2},{11317,2},{11318,2},{11319,2},{11320,2},{11321,2},{11322,2},{11323,2},{11324,2},{11325,2},{11326,2},{11327,2},{11328,2},{11329,2},{11330,2},{11331,2},{11332,2},{11333,2},{11334,2},{11335,2},{11336,2},{11337,2},{11338,2},{11339,2},{11340,2},{11341,2},{11342,2},{11343,2},{11344,2},{11345,2},{11346,2},{11347,2},{11348,2},{11349,2},{11350,2},{11351,2},{11352,2},{11353,2},{11354,2},{11355,2},{11356,2},{11357,2},{11358,2},{11359,2},{11360,1},{11361,2},{11362,1},{11363,1},{11364,1},{11365,2},{11366,2},{11367,1},{11368,2},{11369,1},{11370,2},{11371,1},{11372,2},{11373,1},{11374,1},{11375,1},{11376,1},{11377,2},{11378,1},{11379,2},{11380,2},{11381,1},{11382,2},{11383,2},{11384,2},{11385,2},{11386,2},{11387,2},{11390,1},{11391,1},{11392,1},{11393,2},{11394,1},{11395,2},{11396,1},{11397,2},{11398,1},{11399,2},{11400,1},{11401,2},{11402,1},{11403,2},{11404,1},{11405,2},{11406,1},{11407,2},{11408,1},{11409,2},{11410,1},{11411,2},{11412,1},{11413,2},{11414,1},{11415,2},{11416,1},{11417,2},{11418,1},{11419,2},{11420,1},{11421,2},{11422,1},{11423,2},{11424,1},{11425,2},{11426,1},{11427,2},{11428,1},{11429,2},{11430,1},{11431,2},{11432,1},{11433,2},{11434,1},{11435,2},{11436,1},{11437,2},{11438,1},{11439,2},{11440,1},{11441,2},{11442,1},{11443,2},{11444,1},{11445,2},{11446,1},{11447,2},{11448,1},{11449,2},{11450,1},{11451,2},{11452,1},{11453,2},{11454,1},{11455,2},{11456,1},{11457,2},{11458,1},{11459,2},{11460,1},{11461,2},{11462,1},{11463,2},{11464,1},{11465,2},{11466,1},{11467,2},{11468,1},{11469,2},{11470,1},{11471,2},{11472,1},{11473,2},{11474,1},{11475,2},{11476,1},{11477,2},{11478,1},{11479,2},{11480,1},{11481,2},{11482,1},{11483,2},{11484,1},{11485,2},{11486,1},{11487,2},{11488,1},{11489,2},{11490,1},{11491,2},{11492,2},{11499,1},{11500,2},{11501,1},{11502,2},{11506,1},{11507,2},{11520,2},{11521,2},{11522,2},{11523,2},{11524,2},{11525,2},{11526,2},{11527,2},{11528,2},{11529,2},{11530,2},{11531,2},{11532,2},{11533,2},{11534,2},{11535,2},{11536,2},{11537,2},{11538,2},{11539,2},{11540,2},{11541,2},{11542,2},{11543,2},{11544,2},{11545,2},{11546,2},{11547,2},{11548,2},{11549,2},{11550,2},{11551,2},{11552,2},{11553,2},{11554,2},{11555,2},{11556,2},{11557,2},{11559,2},{11565,2},{42528,3},{42529,3},{42530,3},{42531,3},{42532,3},{42533,3},{42534,3},{42535,3},{42536,3},{42537,3},{42560,1},{42561,2},{42562,1},{42563,2},{42564,1},{42565,2},{42566,1},{42567,2},{42568,1},{42569,2},{42570,1},{42571,2},{42572,1},{42573,2},{42574,1},{42575,2},{42576,1},{42577,2},{42578,1},{42579,2},{42580,1},{42581,2},{42582,1},{42583,2},{42584,1},{42585,2},{42586,1},{42587,2},{42588,1},{42589,2},{42590,1},{42591,2},{42592,1},{42593,2},{42594,1},{42595,2},{42596,1},{42597,2},{42598,1},{42599,2},{42600,1},{42601,2},{42602,1},{42603,2},{42604,1},{42605,2},{42624,1},{42625,2},{42626,1},{42627,2},{42628,1},{42629,2},{42630,1},{42631,2},{42632,1},{42633,2},{42634,1},{42635,2},{42636,1},{42637,2},{42638,1},{42639,2},{42640,1},{42641,2},{42642,1},{42643,2},{42644,1},{42645,2},{42646,1},{42647,2},{42648,1},{42649,2},{42650,1},{42651,2},{42786,1},{42787,2},{42788,1},{42789,2},{42790,1},{42791,2},{42792,1},{42793,2},{42794,1},{42795,2},{42796,1},{42797,2},{42798,1},{42799,2},{42800,2},{42801,2},{42802,1},{42803,2},{42804,1},{42805,2},{42806,1},{42807,2},{42808,1},{42809,2},{42810,1},{42811,2},{42812,1},{42813,2},{42814,1},{42815,2},{42816,1},{42817,2},{42818,1},{42819,2},{42820,1},{42821,2},{42822,1},{42823,2},{42824,1},{42825,2},{42826,1},{42827,2},{42828,1},{42829,2},{42830,1},{42831,2},{42832,1},{42833,2},{42834,1},{42835,2},{42836,1},{42837,2},{42838,1},{42839,2},{42840,1},{42841,2},{42842,1},{42843,2},{42844,1},{42845,2},{42846,1},{42847,2},{42848,1},{42849,2},{42850,1},{42851,2},{42852,1},{42853,2},{42854,1},{42855,2},{42856,1},{42857,2},{42858,1},{42859,2},{42860,1},{42861,2},{42862,1},{42863,2},{42865,2},{42866,2},{42867,2},{42868,2},{42869,2},{42870,2},{42871,2},{42872,2},{42873,1},{42874,2},{42875,1},{42876,2},{42877,1},{42878,1},{42879,2},{42880,1},{42881,2},{42882,1},{42883,2},{42884,1},{42885,2},{42886,1},{42887,2},{42891,1},{42892,2},{42893,1},{42894,2},{42896,1},{42897,2},{42898,1},{42899,2},{42900,2},{42901,2},{42902,1},{42903,2},{42904,1},{42905,2},{42906,1},{42907,2},{42908,1},{42909,2},{42910,1},{42911,2},{42912,1},{42913,2},{42914,1},{42915,2},{42916,1},{42917,2},{42918,1},{42919,2},{42920,1},{42921,2},{42922,1},{42923,1},{42924,1},{42925,1},{42926,1},{42927,2},{42928,1},{42929,1},{42930,1},{42931,1},{42932,1},{42933,2},{42934,1},{42935,2},{42936,1},{42937,2},{42938,1},{42939,2},{42940,1},{42941,2},{42942,1},{42943,2},{42944,1},{42945,2},{42946,1},{42947,2},{42948,1},{42949,1},{42950,1},{42951,1},{42952,2},{42953,1},{42954,2},{42960,1},{42961,2},{42963,2},{42965,2},{42966,1},{42967,2},{42968,1},{42969,2},{42997,1},{42998,2},{43002,2},{43216,3},{43217,3},{43218,3},{43219,3},{43220,3},{43221,3},{43222,3},{43223,3},{43224,3},{43225,3},{43264,3},{43265,3},{43266,3},{43267,3},{43268,3},{43269,3},{43270,3},{43271,3},{43272,3},{43273,3},{43472,3},{43473,3},{43474,3},{43475,3},{43476,3},{43477,3},{43478,3},{43479,3},{43480,3},{43481,3},{43504,3},{43505,3},{43506,3},{43507,3},{43508,3},{43509,3},{43510,3},{43511,3},{43512,3},{43513,3},{43600,3},{43601,3},{43602,3},{43603,3},{43604,3},{43605,3},{43606,3},{43607,3},{43608,3},{43609,3},{43824,2},{43825,2},{43826,2},{43827,2},{43828,2},{43829,2},{43830,2},{43831,2},{43832,2},{43833,2},{43834,2},{43835,2},{43836,2},{43837,2},{43838,2},{43839,2},{43840,2},{43841,2},{43842,2},{43843,2},{43844,2},{43845,2},{43846,2},{43847,2},{43848,2},{43849,2},{43850,2},{43851,2},{43852,2},{43853,2},{43854,2},{43855,2},{43856,2},{43857,2},{43858,2},{43859,2},{43860,2},{43861,2},{43862,2},{43863,2},{43864,2},{43865,2},{43866,2},{43872,2},{43873,2},{43874,2},{43875,2},{43876,2},{43877,2},{43878,2},{43879,2},{43880,2},{43888,2},{43889,2},{43890,2},{43891,2},{43892,2},{43893,2},{43894,2},{43895,2},{43896,2},{43897,2},{43898,2},{43899,2},{43900,2},{43901,2},{43902,2},{43903,2},{43904,2},{43905,2},{43906,2},{43907,2},{43908,2},{43909,2},{43910,2},{43911,2},{43912,2},{43913,2},{43914,2},{43915,2},{43916,2},{43917,2},{43918,2},{43919,2},{43920,2},{43921,2},{43922,2},{43923,2},{43924,2},{43925,2},{43926,2},{43927,2},{43928,2},{43929,2},{43930,2},{43931,2},{43932,2},{43933,2},{43934,2},{43935,2},{43936,2},{43937,2},{43938,2},{43939,2},{43940,2},{43941,2},{43942,2},{43943,2},{43944,2},{43945,2},{43946,2},{43947,2},{43948,2},{43949,2},{43950,2},{43951,2},{43952,2},{43953,2},{43954,2},{43955,2},{43956,2},{43957,2},{43958,2},{43959,2},{43960,2},{43961,2},{43962,2},{43963,2},{43964,2},{43965,2},{43966,2},{43967,2},{44016,3},{44017,3},{44018,3},{44019,3},{44020,3},{44021,3},{44022,3},{44023,3},{44024,3},{44025,3},{64256,2},{64257,2},{64258,2},{64259,2},{64260,2},{64261,2},{64262,2},{64275,2},{64276,2},{64277,2},{64278,2},{64279,2},{65296,3},{65297,3},{65298,3},{65299,3},{65300,3},{65301,3},{65302,3},{65303,3},{65304,3},{65305,3},{65313,1},{65314,1},{65315,1},{65316,1},{65317,1},{65318,1},{65319,1},{65320,1},{65321,1},{65322,1},{65323,1},{65324,1},{65325,1},{65326,1},{65327,1},{65328,1},{65329,1},{65330,1},{65331,1},{65332,1},{65333,1},{65334,1},{65335,1},{65336,1},{65337,1},{65338,1},{65345,2},{65346,2},{65347,2},{65348,2},{65349,2},{65350,2},{65351,2},{65352,2},{65353,2},{65354,2},{65355,2},{65356,2},{65357,2},{65358,2},{65359,2},{65360,2},{65361,2},{65362,2},{65363,2},{65364,2},{65365,2},{65366,2},{65367,2},{65368,2},{65369,2},{65370,2},{66560,1},{66561,1},{66562,1},{66563,1},{66564,1},{66565,1},{66566,1},{66567,1},{66568,1},{66569,1},{66570,1},{66571,1},{66572,1},{66573,1},{66574,1},{66575,1},{66576,1},{66577,1},{66578,1},{66579,1},{66580,1},{66581,1},{66582,1},{66583,1},{66584,1},{66585,1},{66586,1},{66587,1},{66588,1},{66589,1},{66590,1},{66591,1},{66592,1},{66593,1},{66594,1},{66595,1},{66596,1},{66597,1},{66598,1},{66599,1},{66600,2},{66601,2},{66602,2},{66603,2},{66604,2},{66605,2},{66606,2},{66607,2},{66608,2},{66609,2},{66610,2},{66611,2},{66612,2},{66613,2},{66614,2},{66615,2},{66616,2},{66617,2},{66618,2},{66619,2},{66620,2},{66621,2},{66622,2},{66623,2},{66624,2},{66625,2},{66626,2},{66627,2},{66628,2},{66629,2},{66630,2},{66631,2},{66632,2},{66633,2},{66634,2},{66635,2},{66636,2},{66637,2},{66638,2},{66639,2},{66720,3},{66721,3},{66722,3},{66723,3},{66724,3},{66725,3},{66726,3},{66727,3},{66728,3},{66729,3},{66736,1},{66737,1},{66738,1},{66739,1},{66740,1},{66741,1},{66742,1},{66743,1},{66744,1},{66745,1},{66746,1},{66747,1},{66748,1},{66749,1},{66750,1},{66751,1},{66752,1},{66753,1},{66754,1},{66755,1},{66756,1},{66757,1},{66758,1},{66759,1},{66760,1},{66761,1},{66762,1},{66763,1},{66764,1},{66765,1},{66766,1},{66767,1},{66768,1},{66769,1},{66770,1},{66771,1},{66776,2},{66777,2},{66778,2},{66779,2},{66780,2},{66781,2},{66782,2},{66783,2},{66784,2},{66785,2},{66786,2},{66787,2},{66788,2},{66789,2},{66790,2},{66791,2},{66792,2},{66793,2},{66794,2},{66795,2},{66796,2},{66797,2},{66798,2},{66799,2},{66800,2},{66801,2},{66802,2},{66803,2},{66804,2},{66805,2},{66806,2},{66807,2},{66808,2},{66809,2},{66810,2},{66811,2},{66928,1},{66929,1},{66930,1},{66931,1},{66932,1},{66933,1},{66934,1},{66935,1},{66936,1},{66937,1},{66938,1},{66940,1},{66941,1},{66942,1},{66943,1},{66944,1},{66945,1},{66946,1},{66947,1},{66948,1},{66949,1},{66950,1},{66951,1},{66952,1},{66953,1},{66954,1},{66956,1},{66957,1},{66958,1},{66959,1},{66960,1},{66961,1},{66962,1},{66964,1},{66965,1},{66967,2},{66968,2},{66969,2},{66970,2},{66971,2},{66972,2},{66973,2},{66974,2},{66975,2},{66976,2},{66977,2},{66979,2},{66980,2},{66981,2},{66982,2},{66983,2},{66984,2},{66985,2},{66986,2},{66987,2},{66988,2},{66989,2},{66990,2},{66991,2},{66992,2},{66993,2},{66995,2},{66996,2},{66997,2},{66998,2},{66999,2},{67000,2},{67001,2},{67003,2},{67004,2},{68736,1},{68737,1},{68738,1},{68739,1},{68740,1},{68741,1},{68742,1},{68743,1},{68744,1},{68745,1},{68746,1},{68747,1},{68748,1},{68749,1},{68750,1},{68751,1},{68752,1},{68753,1},{68754,1},{68755,1},{68756,1},{68757,1},{68758,1},{68759,1},{68760,1},{68761,1},{68762,1},{68763,1},{68764,1},{68765,1},{68766,1},{68767,1},{68768,1},{68769,1},{68770,1},{68771,1},{68772,1},{68773,1},{68774,1},{68775,1},{68776,1},{68777,1},{68778,1},{68779,1},{68780,1},{68781,1},{68782,1},{68783,1},{68784,1},{68785,1},{68786,1},{68800,2},{68801,2},{68802,2},{68803,2},{68804,2},{68805,2},{68806,2},{68807,2},{68808,2},{68809,2},{68810,2},{68811,2},{68812,2},{68813,2},{68814,2},{68815,2},{68816,2},{68817,2},{68818,2},{68819,2},{68820,2},{68821,2},{68822,2},{68823,2},{68824,2},{68825,2},{68826,2},{68827,2},{68828,2},{68829,2},{68830,2},{68831,2},{68832,2},{68833,2},{68834,2},{68835,2},{68836,2},{68837,2},{68838,2},{68839,2},{68840,2},{68841,2},{68842,2},{68843,2},{68844,2},{68845,2},{68846,2},{68847,2},{68848,2},{68849,2},{68850,2},{68912,3},{68913,3},{68914,3},{68915,3},{68916,3},{68917,3},{68918,3},{68919,3},{68920,3},{68921,3},{69734,3},{69735,3},{69736,3},{69737,3},{69738,3},{69739,3},{69740,3},{69741,3},{69742,3},{69743,3},{69872,3},{69873,3},{69874,3},{69875,3},{69876,3},{69877,3},{69878,3},{69879,3},{69880,3},{69881,3},{69942,3},{69943,3},{69944,3},{69945,3},{69946,3},{69947,3},{69948,3},{69949,3},{69950,3},{69951,3},{70096,3},{70097,3},{70098,3},{70099,3},{70100,3},{70101,3},{70102,3},{70103,3},{70104,3},{70105,3},{70384,3},{70385,3},{70386,3},{70387,3},{70388,3},{70389,3},{70390,3},{70391,3},{70392,3},{70393,3},{70736,3},{70737,3},{70738,3},{70739,3},{70740,3},{70741,3},{70742,3},{70743,3},{70744,3},{70745,3},{70864,3},{70865,3},{70866,3},{70867,3},{70868,3},{70869,3},{70870,3},{70871,3},{70872,3},{70873,3},{71248,3},{71249,3},{71250,3},{71251,3},{71252,3},{71253,3},{71254,3},{71255,3},{71256,3},{71257,3},{71360,3},{71361,3},{71362,3},{71363,3},{71364,3},{71365,3},{71366,3},{71367,3},{71368,3},{71369,3},{71472,3},{71473,3},{71474,3},{71475,3},{71476,3},{71477,3},{71478,3},{71479,3},{71480,3},{71481,3},{71840,1},{71841,1},{71842,1},{71843,1},{71844,1},{71845,1},{71846,1},{71847,1},{71848,1},{71849,1},{71850,1},{71851,1},{71852,1},{71853,1},{71854,1},{71855,1},{71856,1},{71857,1},{71858,1},{71859,1},{71860,1},{71861,1},{71862,1},{71863,1},{71864,1},{71865,1},{71866,1},{71867,1},{71868,1},{71869,1},{71870,1},{71871,1},{71872,2},{71873,2},{71874,2},{71875,2},{71876,2},{71877,2},{71878,2},{71879,2},{71880,2},{71881,2},{71882,2},{71883,2},{71884,2},{71885,2},{71886,2},{71887,2},{71888,2},{71889,2},{71890,2},{71891,2},{71892,2},{71893,2},{71894,2},{71895,2},{71896,2},{71897,2},{71898,2},{71899,2},{71900,2},{71901,2},{71902,2},{71903,2},{71904,3},{71905,3},{71906,3},{71907,3},{71908,3},{71909,3},{71910,3},{71911,3},{71912,3},{71913,3},{72016,3},{72017,3},{72018,3},{72019,3},{72020,3},{72021,3},{72022,3},{72023,3},{72024,3},{72025,3},{72784,3},{72785,3},{72786,3},{72787,3},{72788,3},{72789,3},{72790,3},{72791,3},{72792,3},{72793,3},{73040,3},{73041,3},{73042,3},{73043,3},{73044,3},{73045,3},{73046,3},{73047,3},{73048,3},{73049,3},{73120,3},{73121,3},{73122,3},{73123,3},{73124,3},{73125,3},{73126,3},{73127,3},{73128,3},{73129,3},{73552,3},{73553,3},{73554,3},{73555,3},{73556,3},{73557,3},{73558,3},{73559,3},{73560,3},{73561,3},{92768,3},{92769,3},{92770,3},{92771,3},{92772,3},{92773,3},{92774,3},{92775,3},{92776,3},{92777,3},{92864,3},{92865,3},{92866,3},{92867,3},{92868,3},{92869,3},{92870,3},{92871,3},{92872,3},{92873,3},{93008,3},{93009,3},{93010,3},{93011,3},{93012,3},{93013,3},{93014,3},{93015,3},{93016,3},{93017,3},{93760,1},{93761,1},{93762,1},{93763,1},{93764,1},{93765,1},{93766,1},{93767,1},{93768,1},{93769,1},{93770,1},{93771,1},{93772,1},{93773,1},{93774,1},{93775,1},{93776,1},{93777,1},{93778,1},{93779,1},{93780,1},{93781,1},{93782,1},{93783,1},{93784,1},{93785,1},{93786,1},{93787,1},{93788,1},{93789,1},{93790,1},{93791,1},{93792,2},{93793,2},{93794,2},{93795,2},{93796,2},{93797,2},{93798,2},{93799,2},{93800,2},{93801,2},{93802,2},{93803,2},{93804,2},{93805,2},{93806,2},{93807,2},{93808,2},{93809,2},{93810,2},{93811,2},{93812,2},{93813,2},{93814,2},{93815,2},{93816,2},{93817,2},{93818,2},{93819,2},{93820,2},{93821,2},{93822,2},{93823,2},{119808,1},{119809,1},{119810,1},{119811,1},{119812,1},{119813,1},{119814,1},{119815,1},{119816,1},{119817,1},{119818,1},{119819,1},{119820,1},{119821,1},{119822,1},{119823,1},{119824,1},{119825,1},{119826,1},{119827,1},{119828,1},{119829,1},{119830,1},{119831,1},{119832,1},{119833,1},{119834,2},{119835,2},{119836,2},{119837,2},{119838,2},{119839,2},{119840,2},{119841,2},{119842,2},{119843,2},{119844,2},{119845,2},{119846,2},{119847,2},{119848,2},{119849,2},{119850,2},{119851,2},{119852,2},{119853,2},{119854,2},{119855,2},{119856,2},{119857,2},{119858,2},{119859,2},{119860,1},{119861,1},{119862,1},{119863,1},{119864,1},{119865,1},{119866,1},{119867,1},{119868,1},{119869,1},{119870,1},{119871,1},{119872,1},{119873,1},{119874,1},{119875,1},{119876,1},{119877,1},{119878,1},{119879,1},{119880,1},{119881,1},{119882,1},{119883,1},{119884,1},{119885,1},{119886,2},{119887,2},{119888,2},{119889,2},{119890,2},{119891,2},{119892,2},{119894,2},{119895,2},{119896,2},{119897,2},{119898,2},{119899,2},{119900,2},{119901,2},{119902,2},{119903,2},{119904,2},{119905,2},{119906,2},{119907,2},{119908,2},{119909,2},{119910,2},{119911,2},{119912,1},{119913,1},{119914,1},{119915,1},{119916,1},{119917,1},{119918,1},{119919,1},{119920,1},{119921,1},{119922,1},{119923,1},{119924,1},{119925,1},{119926,1},{119927,1},{119928,1},{119929,1},{119930,1},{119931,1},{119932,1},{119933,1},{119934,1},{119935,1},{119936,1},{119937,1},{119938,2},{119939,2},{119940,2},{119941,2},{119942,2},{119943,2},{119944,2},{119945,2},{119946,2},{119947,2},{119948,2},{119949,2},{119950,2},{119951,2},{119952,2},{119953,2},{119954,2},{119955,2},{119956,2},{119957,2},{119958,2},{119959,2},{119960,2},{119961,2},{119962,2},{119963,2},{119964,1},{119966,1},{119967,1},{119970,1},{119973,1},{119974,1},{119977,1},{119978,1},{119979,1},{119980,1},{119982,1},{119983,1},{119984,1},{119985,1},{119986,1},{119987,1},{119988,1},{119989,1},{119990,2},{119991,2},{119992,2},{119993,2},{119995,2},{119997,2},{119998,2},{119999,2},{120000,2},{120001,2},{120002,2},{120003,2},{120005,2},{120006,2},{120007,2},{120008,2},{120009,2},{120010,2},{120011,2},{120012,2},{120013,2},{120014,2},{120015,2},{120016,1},{120017,1},{120018,1},{120019,1},{120020,1},{120021,1},{120022,1},{120023,1},{120024,1},{120025,1},{120026,1},{120027,1},{120028,1},{120029,1},{120030,1},{120031,1},{120032,1},{120033,1},{120034,1},{120035,1},{120036,1},{120037,1},{120038,1},{120039,1},{120040,1},{120041,1},{120042,2},{120043,2},{120044,2},{120045,2},{120046,2},{120047,2},{120048,2},{120049,2},{120050,2},{120051,2},{120052,2},{120053,2},{120054,2},{120055,2},{120056,2},{120057,2},{120058,2},{120059,2},{120060,2},{120061,2},{120062,2},{120063,2},{120064,2},{120065,2},{120066,2},{120067,2},{120068,1},{120069,1},{120071,1},{120072,1},{120073,1},{120074,1},{120077,1},{120078,1},{120079,1},{120080,1},{120081,1},{120082,1},{120083,1},{120084,1},{120086,1},{120087,1},{120088,1},{120089,1},{120090,1},{120091,1},{120092,1},{120094,2},{120095,2},{120096,2},{120097,2},{120098,2},{120099,2},{120100,2},{120101,2},{120102,2},{120103,2},{120104,2},{120105,2},{120106,2},{120107,2},{120108,2},{120109,2},{120110,2},{120111,2},{120112,2},{120113,2},{120114,2},{120115,2},{120116,2},{120117,2},{120118,2},{120119,2},{120120,1},{120121,1},{120123,1},{120124,1},{120125,1},{120126,1},{120128,1},{120129,1},{120130,1},{120131,1},{120132,1},{120134,1},{120138,1},{120139,1},{120140,1},{120141,1},{120142,1},{120143,1},{120144,1},{120146,2},{120147,2},{120148,2},{120149,2},{120150,2},{120151,2},{120152,2},{120153,2},{120154,2},{120155,2},{120156,2},{120157,2},{120158,2},{120159,2},{120160,2},{120161,2},{120162,2},{120163,2},{120164,2},{120165,2},{120166,2},{120167,2},{120168,2},{120169,2},{120170,2},{120171,2},{120172,1},{120173,1},{120174,1},{120175,1},{120176,1},{120177,1},{120178,1},{120179,1},{120180,1},{120181,1},{120182,1},{120183,1},{120184,1},{120185,1},{120186,1},{120187,1},{120188,1},{120189,1},{120190,1},{120191,1},{120192,1},{120193,1},{120194,1},{120195,1},{120196,1},{120197,1},{120198,2},{120199,2},{120200,2},{120201,2},{120202,2},{120203,2},{120204,2},{120205,2},{120206,2},{120207,2},{120208,2},{120209,2},{120210,2},{120211,2},{120212,2},{120213,2},{120214,2},{120215,2},{120216,2},{120217,2},{120218,2},{120219,2},{120220,2},{120221,2},{120222,2},{120223,2},{120224,1},{120225,1},{120226,1},{120227,1},{120228,1},{120229,1},{120230,1},{120231,1},{120232,1},{120233,1},{120234,1},{120235,1},{120236,1},{120237,1},{120238,1},{120239,1},{120240,1},{120241,1},{120242,1},{120243,1},{120244,1},{120245,1},{120246,1},{120247,1},{120248,1},{120249,1},{120250,2},{120251,2},{120252,2},{120253,2},{120254,2},{120255,2},{120256,2},{120257,2},{120258,2},{120259,2},{120260,2},{120261,2},{120262,2},{120263,2},{120264,2},{120265,2},{120266,2},{120267,2},{120268,2},{120269,2},{120270,2},{120271,2},{120272,2},{120273,2},{120274,2},{120275,2},{120276,1},{120277,1},{120278,1},{120279,1},{120280,1},{120281,1},{120282,1},{120283,1},{120284,1},{120285,1},{120286,1},{120287,1},{120288,1},{120289,1},{120290,1},{120291,1},{120292,1},{120293,1},{120294,1},{120295,1},{120296,1},{120297,1},{120298,1},{120299,1},{120300,1},{120301,1},{120302,2},{120303,2},{120304,2},{120305,2},{120306,2},{120307,2},{120308,2},{120309,2},{120310,2},{120311,2},{120312,2},{120313,2},{120314,2},{120315,2},{120316,2},{120317,2},{120318,2},{120319,2},{120320,2},{120321,2},{120322,2},{120323,2},{120324,2},{120325,2},{120326,2},{120327,2},{120328,1},{120329,1},{120330,1},{120331,1},{120332,1},{120333,1},{120334,1},{120335,1},{120336,1},{120337,1},{120338,1},{120339,1},{120340,1},{120341,1},{120342,1},{120343,1},{120344,1},{120345,1},{120346,1},{120347,1},{120348,1},{120349,1},{120350,1},{120351,1},{120352,1},{120353,1},{120354,2},{120355,2},{120356,2},{120357,2},{120358,2},{120359,2},{120360,2},{120361,2},{120362,2},{120363,2},{120364,2},{120365,2},{120366,2},{120367,2},{120368,2},{120369,2},{120370,2},{120371,2},{120372,2},{120373,2},{120374,2},{120375,2},{120376,2},{120377,2},{120378,2},{120379,2},{120380,1},{120381,1},{120382,1},{120383,1},{120384,1},{120385,1},{120386,1},{120387,1},{120388,1},{120389,1},{120390,1},{120391,1},{120392,1},{120393,1},{120394,1},{120395,1},{120396,1},{120397,1},{120398,1},{120399,1},{120400,1},{120401,1},{120402,1},{120403,1},{120404,1},{120405,1},{120406,2},{120407,2},{120408,2},{120409,2},{120410,2},{120411,2},{120412,2},{120413,2},{120414,2},{120415,2},{120416,2},{120417,2},{120418,2},{120419,2},{120420,2},{120421,2},{120422,2},{120423,2},{120424,2},{120425,2},{120426,2},{120427,2},{120428,2},{120429,2},{120430,2},{120431,2},{120432,1},{120433,1},{120434,1},{120435,1},{120436,1},{120437,1},{120438,1},{120439,1},{120440,1},{120441,1},{120442,1},{120443,1},{120444,1},{120445,1},{120446,1},{120447,1},{120448,1},{120449,1},{120450,1},{120451,1},{120452,1},{120453,1},{120454,1},{120455,1},{120456,1},{120457,1},{120458,2},{120459,2},{120460,2},{120461,2},{120462,2},{120463,2},{120464,2},{120465,2},{120466,2},{120467,2},{120468,2},{120469,2},{120470,2},{120471,2},{120472,2},{120473,2},{120474,2},{120475,2},{120476,2},{120477,2},{120478,2},{120479,2},{120480,2},{120481,2},{120482,2},{120483,2},{120484,2},{120485,2},{120488,1},{120489,1},{120490,1},{120491,1},{120492,1},{120493,1},{120494,1},{120495,1},{120496,1},{120497,1},{120498,1},{120499,1},{120500,1},{120501,1},{120502,1},{120503,1},{120504,1},{120505,1},{120506,1},{120507,1},{120508,1},{120509,1},{120510,1},{120511,1},{120512,1},{120514,2},{120515,2},{120516,2},{120517,2},{120518,2},{120519,2},{120520,2},{120521,2},{120522,2},{120523,2},{120524,2},{120525,2},{120526,2},{120527,2},{120528,2},{120529,2},{120530,2},{120531,2},{120532,2},{120533,2},{120534,2},{120535,2},{120536,2},{120537,2},{120538,2},{120540,2},{120541,2},{120542,2},{120543,2},{120544,2},{120545,2},{120546,1},{120547,1},{120548,1},{120549,1},{120550,1},{120551,1},{120552,1},{120553,1},{120554,1},{120555,1},{120556,1},{120557,1},{120558,1},{120559,1},{120560,1},{120561,1},{120562,1},{120563,1},{120564,1},{120565,1},{120566,1},{120567,1},{120568,1},{120569,1},{120570,1},{120572,2},{120573,2},{120574,2},{120575,2},{120576,2},{120577,2},{120578,2},{120579,2},{120580,2},{120581,2},{120582,2},{120583,2},{120584,2},{120585,2},{120586,2},{120587,2},{120588,2},{120589,2},{120590,2},{120591,2},{120592,2},{120593,2},{120594,2},{120595,2},{120596,2},{120598,2},{120599,2},{120600,2},{120601,2},{120602,2},{120603,2},{120604,1},{120605,1},{120606,1},{120607,1},{120608,1},{120609,1},{120610,1},{120611,1},{120612,1},{120613,1},{120614,1},{120615,1},{120616,1},{120617,1},{120618,1},{120619,1},{120620,1},{120621,1},{120622,1},{120623,1},{120624,1},{120625,1},{120626,1},{120627,1},{120628,1},{120630,2},{120631,2},{120632,2},{120633,2},{120634,2},{120635,2},{120636,2},{120637,2},{120638,2},{120639,2},{120640,2},{120641,2},{120642,2},{120643,2},{120644,2},{120645,2},{120646,2},{120647,2},{120648,2},{120649,2},{120650,2},{120651,2},{120652,2},{120653,2},{120654,2},{120656,2},{120657,2},{120658,2},{120659,2},{120660,2},{120661,2},{120662,1},{120663,1},{120664,1},{120665,1},{120666,1},{120667,1},{120668,1},{120669,1},{120670,1},{120671,1},{120672,1},{120673,1},{120674,1},{120675,1},{120676,1},{120677,1},{120678,1},{120679,1},{120680,1},{120681,1},{120682,1},{120683,1},{120684,1},{120685,1},{120686,1},{120688,2},{120689,2},{120690,2},{120691,2},{120692,2},{120693,2},{120694,2},{120695,2},{120696,2},{120697,2},{120698,2},{120699,2},{120700,2},{120701,2},{120702,2},{120703,2},{120704,2},{120705,2},{120706,2},{120707,2},{120708,2},{120709,2},{120710,2},{120711,2},{120712,2},{120714,2},{120715,2},{120716,2},{120717,2},{120718,2},{120719,2},{120720,1},{120721,1},{120722,1},{120723,1},{120724,1},{120725,1},{120726,1},{120727,1},{120728,1},{120729,1},{120730,1},{120731,1},{120732,1},{120733,1},{120734,1},{120735,1},{120736,1},{120737,1},{120738,1},{120739,1},{120740,1},{120741,1},{120742,1},{120743,1},{120744,1},{120746,2},{120747,2},{120748,2},{120749,2},{120750,2},{120751,2},{120752,2},{120753,2},{120754,2},{120755,2},{120756,2},{120757,2},{120758,2},{120759,2},{120760,2},{120761,2},{120762,2},{120763,2},{120764,2},{120765,2},{120766,2},{120767,2},{120768,2},{120769,2},{120770,2},{120772,2},{120773,2},{120774,2},{120775,2},{120776,2},{120777,2},{120778,1},{120779,2},{120782,3},{120783,3},{120784,3},{120785,3},{120786,3},{120787,3},{120788,3},{120789,3},{120790,3},{120791,3},{120792,3},{120793,3},{120794,3},{120795,3},{120796,3},{120797,3},{120798,3},{120799,3},{120800,3},{120801,3},{120802,3},{120803,3},{120804,3},{120805,3},{120806,3},{120807,3},{120808,3},{120809,3},{120810,3},{120811,3},{120812,3},{120813,3},{120814,3},{120815,3},{120816,3},{120817,3},{120818,3},{120819,3},{120820,3},{120821,3},{120822,3},{120823,3},{120824,3},{120825,3},{120826,3},{120827,3},{120828,3},{120829,3},{120830,3},{120831,3},{122624,2},{122625,2},{122626,2},{122627,2},{122628,2},{122629,2},{122630,2},{122631,2},{122632,2},{122633,2},{122635,2},{122636,2},{122637,2},{122638,2},{122639,2},{122640,2},{122641,2},{122642,2},{122643,2},{122644,2},{122645,2},{122646,2},{122647,2},{122648,2},{122649,2},{122650,2},{122651,2},{122652,2},{122653,2},{122654,2},{122661,2},{122662,2},{122663,2},{122664,2},{122665,2},{122666,2},{123200,3},{123201,3},{123202,3},{123203,3},{123204,3},{123205,3},{123206,3},{123207,3},{123208,3},{123209,3},{123632,3},{123633,3},{123634,3},{123635,3},{123636,3},{123637,3},{123638,3},{123639,3},{123640,3},{123641,3},{124144,3},{124145,3},{124146,3},{124147,3},{124148,3},{124149,3},{124150,3},{124151,3},{124152,3},{124153,3},{125184,1},{125185,1},{125186,1},{125187,1},{125188,1},{125189,1},{125190,1},{125191,1},{125192,1},{125193,1},{125194,1},{125195,1},{125196,1},{125197,1},{125198,1},{125199,1},{125200,1},{125201,1},{125202,1},{125203,1},{125204,1},{125205,1},{125206,1},{125207,1},{125208,1},{125209,1},{125210,1},{125211,1},{125212,1},{125213,1},{125214,1},{125215,1},{125216,1},{125217,1},{125218,2},{125219,2},{125220,2},{125221,2},{125222,2},{125223,2},{125224,2},{125225,2},{125226,2},{125227,2},{125228,2},{125229,2},{125230,2},{125231,2},{125232,2},{125233,2},{125234,2},{125235,2},{125236,2},{125237,2},{125238,2},{125239,2},{125240,2},{125241,2},{125242,2},{125243,2},{125244,2},{125245,2},{125246,2},{125247,2},{125248,2},{125249,2},{125250,2},{125251,2},{125264,3},{125265,3},{125266,3},{125267,3},{125268,3},{125269,3},{125270,3},{125271,3},{125272,3},{125273,3},{130032,3},{130033,3},{130034,3},{130035,3},{130036,3},{130037,3},{130038,3},{130039,3},{130040,3},{130041,3}};
