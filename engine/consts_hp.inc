// generated by tools/gen_consts.py (mpmath, 100 digits)
static const char* const HP_PI = "3.141592653589793238462643383279502884197169399375105820974944592307816406286209";
static const char* const HP_ZPOS[180] = { /* zeta(n), n = 0..179; zeta(1) unused */
   "-5.0e-1",
   "0.0",
   "1.6449340668482264364724151666460251892189499012067984377355582293700074704032009",
   "1.2020569031595942853997381615114499907649862923404988817922715553418382057863131",
   "1.0823232337111381915160036965411679027747509519187269076829762154441206161869688",
   "1.0369277551433699263313654864570341680570809195019128119741926779038035897862815",
   "1.0173430619844491397145179297909205279018174900328535618424086640043321829019579",
   "1.0083492773819228268397975498497967595998635605652387064172831365716014783173557",
   "1.0040773561979443393786852385086524652589607906498500203291102026525829525747488",
   "1.0020083928260822144178527692324120604856058513948887565485966159097850533902584",
   "1.000994575127818085337145958900319017006019531564477517257788994636291465151913",
   "1.0004941886041194645587022825264699364686064357582086171191414361000540597982198",
   "1.0002460865533080482986379980477396709604160884580034045330409521332520196819409",
   "1.0001227133475784891467518365263573957142751058955098451367026716208967268298442",
   "1.0000612481350587048292585451051353337474816961691545494827552022528629410231774",
   "1.0000305882363070204935517285106450625876279487068581775065699328933322671563423",
   "1.0000152822594086518717325714876367220232373889904715311531052035887870870279532",
   "1.0000076371976378997622736002935630292130882490902626790953798439729356432902825",
   "1.00000381729326499983985646164462193973045469721895333114317442998763003954265",
   "1.0000019082127165539389256569577951013532585711448386302359330467618239497053413",
   "1.0000009539620338727961131520386834493459437941874105957500564898511375137311439",
   "1.0000004769329867878064631167196043730459664466947849376002074873765968390878982",
   "1.0000002384505027277329900036481867529949350418217796582698496031164744589356229",
   "1.0000001192199259653110730677887188823263872549977845198586032257972362437304274",
   "1.0000000596081890512594796124402079358012275039188373027958642469723217244953555",
   "1.0000000298035035146522801860637050693660118447309195433123986813390133844607675",
   "1.0000000149015548283650412346585066306986288647881678859105474359687899712967449",
   "1.0000000074507117898354294919810041706041194547190318825658299932395783521476063",
   "1.0000000037253340247884570548192040184024232328930592958115197693347061696049603",
   "1.0000000018626597235130490064039099454169480616653304692006657748938055580916933",
   "1.0000000009313274324196681828717647350212198135679551368161850086133604419606729",
   "1.0000000004656629065033784072989233251220071062691853369473073729716933711756699",
   "1.0000000002328311833676505492001455975940495024829822845303110776022583879121894",
   "1.0000000001164155017270051977592973835456309516522471727635932565177399470291246",
   "1.0000000000582077208790270088924368598910630541731226046172159550716881241630714",
   "1.0000000000291038504449709968692942522788404641069819874330322562102548256404889",
   "1.0000000000145519218910419842359296322453184209838088941240380691395422185717459",
   "1.0000000000072759598350574810145208690123380592648509255554661077057969426384384",
   "1.0000000000036379795473786511902372363558732735126460283848974699479515940427142",
   "1.0000000000018189896503070659475848321007300850305893096186640705352512533565093",
   "1.0000000000009094947840263889282533118386949087538600009908788285054797101120254",
   "1.0000000000004547473783042154026799112029488570339045299114386280812340359050026",
   "1.000000000000227373684582465251522682157797869121382982198915872580533647882223",
   "1.0000000000001136868407680227849349104838025906437435902842517998990122763093591",
   "1.0000000000000568434198762758560927718296752406855305715889938835168064444404636",
   "1.0000000000000284217097688930185545507370494266207436882653098338276290627817567",
   "1.000000000000014210854828031606769834307141739537678698605633951957451700244209",
   "1.000000000000007105427395210852712877354479956800022742043593687688363828887751",
   "1.0000000000000035527136913371136732984695340593429921456555030626150125179340476",
   "1.0000000000000017763568435791203274733490144002795701555085753269519787592412333",
   "1.0000000000000008881784210930815903096091386391386325608871464644666449769899008",
   "1.0000000000000004440892103143813364197770940268121336459603070244180285978311534",
   "1.0000000000000002220446050798041983999320094204653964236654329438934392366540426",
   "1.0000000000000001110223025141066133720544569921382702483222900442625934092333309",
   "1.0000000000000000555111512484548124372373659050943028167235506165268095853680752",
   "1.0000000000000000277555756213612417258163245385406976898489037436902721879633649",
   "1.0000000000000000138777878097252327628390949065002219077186246861588673480249342",
   "1.0000000000000000069388939045441536974460853262498092748358741793471311336545162",
   "1.0000000000000000034694469521659226247442714961093346219504706270058062440003428",
   "1.0000000000000000017347234760475765720489729699375959074780544789072966328902467",
   "1.0000000000000000008673617380119933728342055067342951487907141457406328937108724",
   "1.0000000000000000004336808690020650487497023565906241361254780116485805599268596",
   "1.0000000000000000002168404344997219785013910168320984576157401040523618972977844",
   "1.00000000000000000010842021724942414063012711165461382589364743780316545638704",
   "1.00000000000000000005421010862456645410918700404388633715063422389424039058389",
   "1.0000000000000000000271050543122346883195462131194977643188872816805013655961642",
   "1.0000000000000000000135525271561011645814852339968269283289818772850375763697774",
   "1.0000000000000000000067762635780451890979952987415566862059812585701795616682894",
   "1.0000000000000000000033881317890207968180857031004508368340311585066194047909786",
   "1.0000000000000000000016940658945097991654064927471248619403036417555219718010179",
   "1.0000000000000000000008470329472546998348246992609182167522283864158034291248614",
   "1.0000000000000000000004235164736272833347862270483357934408810971668658101546719",
   "1.0000000000000000000002117582368136194731844209439818002586941761237670536436901",
   "1.0000000000000000000001058791184068023385226500153923839847069990214914266480096",
   "1.0000000000000000000000529395592033987032381391230291850558663756285704594087367",
   "1.0000000000000000000000264697796016985296113411668420387155925561336910067940434",
   "1.0000000000000000000000132348898008489908030945102509449896843238262720171364754",
   "1.0000000000000000000000066174449004244040673552453323082200147137974916175394161",
   "1.0000000000000000000000033087224502121715889469563843144048092764894035909708891",
   "1.0000000000000000000000016543612251060756462299236771810488297723588866643175829",
   "1.0000000000000000000000008271806125530344403671105616744072404009681112297828912",
   "1.0000000000000000000000004135903062765160926009382455508141285257587325443093977",
   "1.0000000000000000000000002067951531382576704395967919346895044336531236879601448",
   "1.0000000000000000000000001033975765691287099328409559174586091107960627178061853",
   "1.0000000000000000000000000516987882845643132041013321663555128936081638105226933",
   "1.0000000000000000000000000258493941422821426812776177084502222691211587134157964",
   "1.0000000000000000000000000129246970711410667003811261183318653092997787037817093",
   "1.0000000000000000000000000064623485355705318034380021611221670660356863512863913",
   "1.0000000000000000000000000032311742677852653861348141180266574173608295689387338",
   "1.0000000000000000000000000016155871338926325212060114057052272720509148261864298",
   "1.0000000000000000000000000008077935669463162033158738186340899739868484689462901",
   "1.0000000000000000000000000004038967834731580825622262812985813037947969961879913",
   "1.0000000000000000000000000002019483917365790349158762646567304751890372848094761",
   "1.0000000000000000000000000001009741958682895153361925070009104414453843240054766",
   "1.0000000000000000000000000000504870979341447569608477117254866043608987346230843",
   "1.000000000000000000000000000025243548967072378244674341937966175648398692658304",
   "1.0000000000000000000000000000126217744835361890437539996607771487106327646871219",
   "1.0000000000000000000000000000063108872417680944956826093943332037500694711983569",
   "1.000000000000000000000000000003155443620884047239109841218484797281437126952965",
   "1.0000000000000000000000000000015777218104420236166444327830159601782237092386242",
   "1.0000000000000000000000000000007888609052210118073520537827660413687896253431459",
   "1.0000000000000000000000000000003944304526105059033526393551357596360814104420443",
   "1.000000000000000000000000000000197215226305252951568523832152139099884738425827",
   "1.0000000000000000000000000000000986076131526264757483299676041592183775051813136",
   "1.0000000000000000000000000000000493038065763132378621876676447769756222457544504",
   "1.0000000000000000000000000000000246519032881566189271013951032878125277325485969",
   "1.0000000000000000000000000000000123259516440783094622198846452770651457641502543",
   "1.0000000000000000000000000000000061629758220391547306663380205162648609383630814",
   "1.0000000000000000000000000000000030814879110195773651853009095507130250105264366",
   "1.0000000000000000000000000000000015407439555097886825433610878728841686496903951",
   "1.0000000000000000000000000000000007703719777548943412552507549689515008639823062",
   "1.000000000000000000000000000000000385185988877447170622148781161978938734452201",
   "1.0000000000000000000000000000000001925929944387235853092488584734905444987336193",
   "1.0000000000000000000000000000000000962964972193617926540159185342456337175411083",
   "1.0000000000000000000000000000000000481482486096808963268051223662896047875799351",
   "1.0000000000000000000000000000000000240741243048404481633349488828670652299142482",
   "1.0000000000000000000000000000000000120370621524202240816449370080076202752955061",
   "1.0000000000000000000000000000000000060185310762101120408149560261951727031681191",
   "1.000000000000000000000000000000000003009265538105056020404973853828040543109408",
   "1.0000000000000000000000000000000000015046327690525280102016522071575050028177934",
   "1.0000000000000000000000000000000000007523163845262640051005478636599140786852531",
   "1.0000000000000000000000000000000000003761581922631320025501811851903442318152437",
   "1.0000000000000000000000000000000000001880790961315660012750596770486345134102855",
   "1.0000000000000000000000000000000000000940395480657830006375195333421380558756451",
   "1.0000000000000000000000000000000000000470197740328915003187563316103426276620603",
   "1.0000000000000000000000000000000000000235098870164457501593770207849291804059603",
   "1.0000000000000000000000000000000000000117549435082228750796881287190505457280029",
   "1.0000000000000000000000000000000000000058774717541114375398439371350539247056872",
   "1.0000000000000000000000000000000000000029387358770557187699219261593698463000751",
   "1.0000000000000000000000000000000000000014693679385278593849609489436325511324488",
   "1.0000000000000000000000000000000000000007346839692639296924804697597988182270283",
   "1.0000000000000000000000000000000000000003673419846319648462402333092269233337822",
   "1.0000000000000000000000000000000000000001836709923159824231201161310559664069804",
   "1.0000000000000000000000000000000000000000918354961579912115600578910088181168533",
   "1.0000000000000000000000000000000000000000459177480789956057800288873313540295477",
   "1.0000000000000000000000000000000000000000229588740394978028900144242746586718142",
   "1.0000000000000000000000000000000000000000114794370197489014450072056736565549205",
   "1.0000000000000000000000000000000000000000057397185098744507225036006822706837981",
   "1.000000000000000000000000000000000000000002869859254937225361251799622949477345",
   "1.0000000000000000000000000000000000000000014349296274686126806258995720794504878",
   "1.000000000000000000000000000000000000000000717464813734306340312949706241295849",
   "1.0000000000000000000000000000000000000000003587324068671531701564748265211714595",
   "1.0000000000000000000000000000000000000000001793662034335765850782374043940935748",
   "1.0000000000000000000000000000000000000000000896831017167882925391186992415494024",
   "1.0000000000000000000000000000000000000000000448415508583941462695593486356089062",
   "1.0000000000000000000000000000000000000000000224207754291970731347796739894158548",
   "1.0000000000000000000000000000000000000000000112103877145985365673898368852450613",
   "1.0000000000000000000000000000000000000000000056051938572992682836949184061349086",
   "1.0000000000000000000000000000000000000000000028025969286496341418474591909049136",
   "1.0000000000000000000000000000000000000000000014012984643248170709237295913982766",
   "1.0000000000000000000000000000000000000000000007006492321624085354618647943477449",
   "1.000000000000000000000000000000000000000000000350324616081204267730932396723408",
   "1.0000000000000000000000000000000000000000000001751623080406021338654661982115492",
   "1.000000000000000000000000000000000000000000000087581154020301066932733099055723",
   "1.0000000000000000000000000000000000000000000000437905770101505334663665495111776",
   "1.0000000000000000000000000000000000000000000000218952885050752667331832747500275",
   "1.00000000000000000000000000000000000000000000001094764425253763336659163737316",
   "1.0000000000000000000000000000000000000000000000054738221262688166832958186859621",
   "1.0000000000000000000000000000000000000000000000027369110631344083416479093427751",
   "1.0000000000000000000000000000000000000000000000013684555315672041708239546713189",
   "1.0000000000000000000000000000000000000000000000006842277657836020854119773356366",
   "1.0000000000000000000000000000000000000000000000003421138828918010427059886678106",
   "1.0000000000000000000000000000000000000000000000001710569414459005213529943339028",
   "1.0000000000000000000000000000000000000000000000000855284707229502606764971669505",
   "1.000000000000000000000000000000000000000000000000042764235361475130338248583475",
   "1.0000000000000000000000000000000000000000000000000213821176807375651691242917374",
   "1.0000000000000000000000000000000000000000000000000106910588403687825845621458687",
   "1.0000000000000000000000000000000000000000000000000053455294201843912922810729343",
   "1.0000000000000000000000000000000000000000000000000026727647100921956461405364672",
   "1.0000000000000000000000000000000000000000000000000013363823550460978230702682336",
   "1.0000000000000000000000000000000000000000000000000006681911775230489115351341168",
   "1.0000000000000000000000000000000000000000000000000003340955887615244557675670584",
   "1.0000000000000000000000000000000000000000000000000001670477943807622278837835292",
   "1.0000000000000000000000000000000000000000000000000000835238971903811139418917646",
   "1.0000000000000000000000000000000000000000000000000000417619485951905569709458823",
   "1.0000000000000000000000000000000000000000000000000000208809742975952784854729411",
   "1.0000000000000000000000000000000000000000000000000000104404871487976392427364706",
   "1.0000000000000000000000000000000000000000000000000000052202435743988196213682353",
   "1.0000000000000000000000000000000000000000000000000000026101217871994098106841176",
   "1.0000000000000000000000000000000000000000000000000000013050608935997049053420588",
};
static const char* const HP_ZNEG[160] = { /* zeta(1-2j), j = 1..160 */
   "-8.3333333333333333333333333333333333333333333333333333333333333333333333333333333e-2",
   "8.3333333333333333333333333333333333333333333333333333333333333333333333333333333e-3",
   "-3.968253968253968253968253968253968253968253968253968253968253968253968253968254e-3",
   "4.1666666666666666666666666666666666666666666666666666666666666666666666666666667e-3",
   "-7.5757575757575757575757575757575757575757575757575757575757575757575757575757576e-3",
   "2.1092796092796092796092796092796092796092796092796092796092796092796092796092796e-2",
   "-8.3333333333333333333333333333333333333333333333333333333333333333333333333333333e-2",
   "4.4325980392156862745098039215686274509803921568627450980392156862745098039215686e-1",
   "-3.0539543302701197438039543302701197438039543302701197438039543302701197438039543",
   "2.6456212121212121212121212121212121212121212121212121212121212121212121212121212e+1",
   "-2.8146014492753623188405797101449275362318840579710144927536231884057971014492754e+2",
   "3.607510546398046398046398046398046398046398046398046398046398046398046398046398e+3",
   "-5.4827583333333333333333333333333333333333333333333333333333333333333333333333333e+4",
   "9.7493682385057471264367816091954022988505747126436781609195402298850574712643678e+5",
   "-2.0052695796688078946143462272494530559046688078946143462272494530559046688078946e+7",
   "4.7238486772162990196078431372549019607843137254901960784313725490196078431372549e+8",
   "-1.2635724795916666666666666666666666666666666666666666666666666666666666666666667e+10",
   "3.8087931125245368811553022079337868811553022079337868811553022079337868811553022e+11",
   "-1.2850850499305083333333333333333333333333333333333333333333333333333333333333333e+13",
   "4.8241448354850170371581670362158167036215816703621581670362158167036215816703622e+14",
   "-2.0040310656516252738108421663238938986447292095132626694088488108421663238938986e+16",
   "9.1677436031953307756992753623188405797101449275362318840579710144927536231884058e+17",
   "-4.5979888343656503490437943262411347517730496453900709219858156028368794326241135e+19",
   "2.5180471921451095697089023320225526107879049055519643754937872584931408460820226e+21",
   "-1.5001733492153928733711440151515151515151515151515151515151515151515151515151515e+23",
   "9.6899578874635940656497942894654088050314465408805031446540880503144654088050314e+24",
   "-6.7645882379292820990945242301798477675670658126798477675670658126798477675670658e+26",
   "5.0890659468662289689766332915911925287356321839080459770114942528735632183908046e+28",
   "-4.1147288792557978697665486067619336158192090395480225988700564971751412429378531e+30",
   "3.566658209537555610968457460865182898779025193620645762369717948776647877652637e+32",
   "-3.3066089876577576725680214670439210083333333333333333333333333333333333333333333e+34",
   "3.2715634236478716264211227015668703413608149509803921568627450980392156862745098e+36",
   "-3.4473782558278053878256455079953431184045402130136069136718065984775913393694056e+38",
   "3.8614279832705258893092720200232650119777941666666666666666666666666666666666667e+40",
   "-4.5892974432454332168863989006092836062174201580239009816474605206999573196756295e+42",
   "5.7775386342770431824884825687864387412068893071314542762812409531948104406648026e+44",
   "-7.6919858759507135167410075971785214384433125637583333333333333333333333333333333e+46",
   "1.0813635449971654696354033351133859607177749047748158333333333333333333333333333e+49",
   "-1.602936452200896540606710234577294297971435431339548397578862768736186457705445e+51",
   "2.5019479041560462843656661498516623460905275166032394894009320246945784965871049e+53",
   "-4.1067052335810212479752045004071650019779998716090053258928714859437751004016064e+55",
   "7.0798774408494580617452972433394691476879847101317744036274322720491153301326288e+57",
   "-1.2804546887939508790190849756322897214686641214212963793837150833333333333333333e+60",
   "2.4267340392333524078020892067092120089742384930867578649777943527372781305976225e+62",
   "-4.8143218874045769355129570065976895798279298346454565716651730978142755675438188e+64",
   "9.9875574175727530680652777408154236020609118387252169520761357294938810283687943e+66",
   "-2.1645634868435185631335136159808531985079936439764124493549913214266834166666667e+69",
   "4.8962327039620553206849224515631313181871601426832351994937253712625503494085673e+71",
   "-1.1549023923963519663954271691565239048867720361990559100182646471087235894258333e+74",
   "2.8382249570693706959264156336481764738284680928012882128228531714464865111070281e+76",
   "-7.2612008803606716303677281510706847232235031164792849679525588577204443964824594e+78",
   "1.9323514233419812003332326608380156910449298867820073677255894422039765866324971e+81",
   "-5.3450160425288624005395609462754110340961762535387189265459966464294774398087055e+83",
   "1.5356028846422423070207142013259178056939780198819874747594876681101739016400603e+86",
   "-4.5789872682265797653899474468345595284038522059002921946841501202298464524311808e+88",
   "1.4162025212194809258360179975862891770304445011409789178993629030622599433123973e+91",
   "-4.5400652296092655249187053230269405755474429154325044613212427140629919557716361e+93",
   "1.5076656758807859775594849894498413056156444967091849028127023461962251973727448e+96",
   "-5.1830949148264563776122479037512006593870954954901017556646813654860802972571534e+98",
   "1.8435647427256529118573602880594110371310987545823150125472127244189780529168811e+101",
   "-6.7805554753090958896902510213102127648528402064289808429384305728347927888115343e+103",
   "2.5773326702754604502896479329984528123811513444434767962245567937999621869472028e+106",
   "-1.0119112875704597605007955795973555449966025235229978805683004551890640728836208e+109",
   "4.1016346161542292108908456737941543317906167216996283797484480095489857955708261e+111",
   "-1.7155244534032019392207152460645175495183286269904521955761962139260027957824019e+114",
   "7.4003425705269094271692055605288060076641592935595211341666795955981805841916549e+116",
   "-3.2909225357054443486770614085681469546175936019050831892029671000083055421852057e+119",
   "1.507983153416477120568333656439927609298279168411826173021132226138372016649281e+122",
   "-7.1169879188254548628676064929056174667747723181684135547704320831968718709703738e+124",
   "3.4580429141577771791992283364259580543664678530231871703654183041430451076086804e+127",
   "-1.7290907606676748316748920707104711549065982422524228493186477696487730119227281e+130",
   "8.8936991695032969088767453323623511957026626188863334153438988188085269628147756e+132",
   "-4.7038470619636014515138279861961918106912621105120332807920293151082080624241145e+135",
   "2.5571938231060205874985807713769970820601046800702905266589284054612701360098078e+138",
   "-1.4284067500443527700580882090098848064440101735310063427706423262298552883230705e+141",
   "8.1952152218313782940918703694984258022751963409845020872116384368035301125624388e+143",
   "-4.8276485422727371781610174281851987864792671995391347797820329803081504505490607e+146",
   "2.9189612374770323650040598220077740305623150342485359552432170233047859674794682e+149",
   "-1.8108932162568904016053067880390653495518346231437717737394529036424910147400691e+152",
   "1.1523577220021168579805126658517990929713376828959537668771536505093370778655928e+155",
   "-7.5192311951981769750008126583947662690231053476339599137975134609237599270405805e+157",
   "5.0294016576411049724684052274200819957403592475141162376661211636620494045245863e+160",
   "-3.4473420444477676704609427598974615416788244947185198870771041719590949334175763e+163",
   "2.4207458645868514718314267489949919976321173882002564482440490937744346688177199e+166",
   "-1.7409465920377676507573687989167757083904664648038184243773618155735024877423076e+169",
   "1.2819489863482242737808822806595696792812706127652038504005083735118169817028421e+172",
   "-9.6624121108560918424316968477793486065783824510463606450515819303605238821574482e+174",
   "7.4526910304300895730939094520350655116154111364038801857166454374266243097187934e+177",
   "-5.8808393311674371248220704454956791934735236735132094411945457578454471717008544e+180",
   "4.7462718654907615399221252572171265255181672661040389947802357204735943034476109e+183",
   "-3.9169132594772825468290333339090012347321136774985368971260833503868604944959666e+186",
   "3.3045071443226032228306908624265079264238486961559719357672897366854819315352837e+189",
   "-2.8492890550994582758115210217378885281101597437935660739819086662313891738021618e+192",
   "2.5103329345077586512959905798584037824668127008364322786217237641333335568701987e+195",
   "-2.2593901995475253204956226133740772055027420053269354543572156904331228130762751e+198",
   "2.0769138004287608043462377892861395578471431175000282457414147490251905331822002e+201",
   "-1.9494732174927259130873411400071821025681455578157975405781673130668087751060796e+204",
   "1.8680731471265913899839698068938640242612044303215811446144024996998677273887035e+207",
   "-1.82707526628145769438663944090360651251283573721626046480623358146389881125531e+210",
   "1.8235386322595677181069154432774972452434117343095529368841365451810925103053855e+213",
   "-1.8568690810125945098190713371525454916180284195967385447381447291101895878962323e+216",
   "1.9287189851195602092886827869299677909591036292455417890522062488124467810869665e+219",
   "-2.0431170460286447575076270442305577584598610431957033490741135248313700520102575e+222",
   "2.2068411644527845507682833681409884185546678719536628590362300563730471134945461e+225",
   "-2.4300821796490274251390389766976036597131426804388664911834428075856182615483751e+228",
   "2.7274887879083469529027229775609299175103750961568681644229870934773762530740087e+231",
   "-3.11974215737550845945157847856452973575270812106590519317916880470856560945465e+234",
   "3.635893872428260014934797498330150205686248009270376832489633479043896394860875e+237",
   "-4.3168300030760883268139600378842315839171917284951837734154638099132322913779465e+240",
   "5.2204244879387199972044817821275269340160816802142790812918641543162310310094727e+243",
   "-6.429260694976930485198933337257770265638734819998488868165995700038595614193929e+246",
   "8.0623033870130843813520414338238643270856872682822907474360171985535673205725983e+249",
   "-1.0292714737903011157579556866580038768218424040587140003627774336232091290775921e+253",
   "1.3375329699780524021137842950067657622163466548687621134604172721855148062505519e+256",
   "-1.7689480902797379757565744527171187766681926554544419817505802106723077186871174e+259",
   "2.3806479018092397252255174314361482427770668726132316471920590950999512120059081e+262",
   "-3.2597127947194184823502123513032530578370027082620061175180599212357068575113505e+265",
   "4.5404962371601213191861662712315846157909693269412946846612881971897463180086776e+268",
   "-6.4328575193147850610689460568636695107498888120481811678462523731840387230188349e+271",
   "9.2687048675749311115250978693770212843681303250704247169078568076912991242735319e+274",
   "-1.3579619500285181473892137869293193196908379753712165651101760572026844503144764e+278",
   "2.0227839736049321681176718778343277192499951638021228273396335953116584916788255e+281",
   "-3.0629906992208336065539270316231055151537577675774302768937516812236010778297785e+284",
   "4.7143085300742652128261663198248000719314329480506346506659526319160025821682423e+287",
   "-7.3741045871355757650658480639080892958596990800013771782790358860705034736934139e+290",
   "1.1720962767050826576508528466290681884333623268817148424254537232805881342520135e+294",
   "-1.8928866644685657388538531655246617016849095694522427618908564655065594071111639e+297",
   "3.1055517596048926896025141862154636446749925937562744659798666335545429736004595e+300",
   "-5.1754977470366797965163888379000200888387307366616550223496837195943353948829496e+303",
   "8.7601563446229215149040730134882232193027936512538803736610151582230334132918512e+306",
   "-1.5057954336054680283066891436727738915586513909895318251407638293098850242978443e+310",
   "2.6282294591403795856332291627429566479064865730952741588826749437520642871138639e+313",
   "-4.6575051412690406907107436850346275563372915478960953458617255814598708831875527e+316",
   "8.3788902954078722369402536045731510475577188658612839151558933324870564250328526e+319",
   "-1.5300789541014230961972265331443220015800623801394704358572939035679935346533713e+323",
   "2.8358754951526726415297529668245892541797734723636796053196597986066572903153822e+326",
   "-5.334073236633830659265013826537720953698534401245966553584150231157262748065901e+329",
   "1.0180813790672220640807737836930116158084384617247053931980687772168795382025138e+333",
   "-1.9715673098269340429899629476309324763766821093175657927091686003840231054435912e+336",
   "3.8734760145988789661361617542359986297151714641813751450248941604373025863024877e+339",
   "-7.7197899845661827649970396236302002126314646179572286191548958104045193530971473e+342",
   "1.5605629528582935746293800821326593690381207991740112000162862326518661387413916e+346",
   "-3.1995194607396975690271875098160035300954535569107718703450432646410810833694367e+349",
   "6.6523171979276296920714499275995942139350340840953716445343457132706406309005438e+352",
   "-1.4025021736352456064478744840282813933202842452756682376737155799460402754489906e+356",
   "2.998021846245800211037037743119982443366163116913915616599239927782613928682266e+359",
   "-6.4971894174678015892665773711704400674344290626480659804127194258017344971570156e+362",
   "1.4273653109003688225105118461868832447997539524047910008982777237980966242601535e+366",
   "-3.17850984984826432163314456268037014580718724973208255667770694425508061805699e+369",
   "7.1738332442666227657327245891869606619115219092793556728311464194893233194144782e+372",
   "-1.6408893295808678977963045418900042620400633272232767879819412557575508639623225e+376",
   "3.8033748084182062389176213477512564741505109013065775685112678005414994289913799e+379",
   "-8.9327012994971820216045487800820212876373112281038035194702450605038344443894391e+382",
   "2.125606537443239268538932637428551476082075449144147264004946014022760197755875e+386",
   "-5.1242739111007144284344907131284570824101214028628957059218566161744134851257513e+389",
   "1.251395769506959993659807099695574308111634795566339630231860723592214881377564e+393",
   "-3.0955218745516069368876666916140550876811873351301282392145806766875037579844222e+396",
   "7.755581079270639402640758663010682529375630109653094394055238340598886496978046e+399",
   "-1.9678905969801305990835453227466405959990407303803119660183413351849685811410376e+403",
   "5.0566048502618956016499672863654846388137959999531321725506606512795186774687866e+406",
};
