// generated by tools/gen_consts.py (mpmath, 60 digits); reference-model constants
#define REF_ZPOS_N 130
static const __float128 REF_ZPOS[130] = { /* zeta(n), n = 0..129; zeta(1) unused */
   -5.0e-1Q,
   0.0Q,
   1.64493406684822643647241516664602518921895Q,
   1.20205690315959428539973816151144999076499Q,
   1.08232323371113819151600369654116790277475Q,
   1.03692775514336992633136548645703416805708Q,
   1.01734306198444913971451792979092052790182Q,
   1.00834927738192282683979754984979675959986Q,
   1.00407735619794433937868523850865246525896Q,
   1.00200839282608221441785276923241206048561Q,
   1.00099457512781808533714595890031901700602Q,
   1.00049418860411946455870228252646993646861Q,
   1.00024608655330804829863799804773967096042Q,
   1.00012271334757848914675183652635739571428Q,
   1.00006124813505870482925854510513533374748Q,
   1.00003058823630702049355172851064506258763Q,
   1.00001528225940865187173257148763672202324Q,
   1.00000763719763789976227360029356302921309Q,
   1.00000381729326499983985646164462193973045Q,
   1.00000190821271655393892565695779510135326Q,
   1.00000095396203387279611315203868344934594Q,
   1.00000047693298678780646311671960437304597Q,
   1.00000023845050272773299000364818675299494Q,
   1.00000011921992596531107306778871888232639Q,
   1.00000005960818905125947961244020793580123Q,
   1.00000002980350351465228018606370506936601Q,
   1.00000001490155482836504123465850663069863Q,
   1.00000000745071178983542949198100417060412Q,
   1.00000000372533402478845705481920401840242Q,
   1.00000000186265972351304900640390994541695Q,
   1.00000000093132743241966818287176473502122Q,
   1.00000000046566290650337840729892332512201Q,
   1.00000000023283118336765054920014559759405Q,
   1.00000000011641550172700519775929738354563Q,
   1.00000000005820772087902700889243685989106Q,
   1.00000000002910385044497099686929425227884Q,
   1.00000000001455192189104198423592963224532Q,
   1.00000000000727595983505748101452086901234Q,
   1.00000000000363797954737865119023723635587Q,
   1.00000000000181898965030706594758483210073Q,
   1.00000000000090949478402638892825331183869Q,
   1.00000000000045474737830421540267991120295Q,
   1.0000000000002273736845824652515226821578Q,
   1.0000000000001136868407680227849349104838Q,
   1.00000000000005684341987627585609277182968Q,
   1.00000000000002842170976889301855455073705Q,
   1.00000000000001421085482803160676983430714Q,
   1.00000000000000710542739521085271287735448Q,
   1.00000000000000355271369133711367329846953Q,
   1.00000000000000177635684357912032747334901Q,
   1.00000000000000088817842109308159030960914Q,
   1.00000000000000044408921031438133641977709Q,
   1.00000000000000022204460507980419839993201Q,
   1.00000000000000011102230251410661337205446Q,
   1.00000000000000005551115124845481243723737Q,
   1.00000000000000002775557562136124172581632Q,
   1.00000000000000001387778780972523276283909Q,
   1.00000000000000000693889390454415369744609Q,
   1.00000000000000000346944695216592262474427Q,
   1.00000000000000000173472347604757657204897Q,
   1.00000000000000000086736173801199337283421Q,
   1.0000000000000000004336808690020650487497Q,
   1.00000000000000000021684043449972197850139Q,
   1.00000000000000000010842021724942414063013Q,
   1.00000000000000000005421010862456645410919Q,
   1.00000000000000000002710505431223468831955Q,
   1.00000000000000000001355252715610116458149Q,
   1.000000000000000000006776263578045189098Q,
   1.00000000000000000000338813178902079681809Q,
   1.00000000000000000000169406589450979916541Q,
   1.00000000000000000000084703294725469983482Q,
   1.00000000000000000000042351647362728333479Q,
   1.00000000000000000000021175823681361947318Q,
   1.00000000000000000000010587911840680233852Q,
   1.00000000000000000000005293955920339870324Q,
   1.00000000000000000000002646977960169852961Q,
   1.0000000000000000000000132348898008489908Q,
   1.00000000000000000000000661744490042440407Q,
   1.00000000000000000000000330872245021217159Q,
   1.00000000000000000000000165436122510607565Q,
   1.00000000000000000000000082718061255303444Q,
   1.00000000000000000000000041359030627651609Q,
   1.00000000000000000000000020679515313825767Q,
   1.00000000000000000000000010339757656912871Q,
   1.00000000000000000000000005169878828456431Q,
   1.00000000000000000000000002584939414228214Q,
   1.00000000000000000000000001292469707114107Q,
   1.00000000000000000000000000646234853557053Q,
   1.00000000000000000000000000323117426778527Q,
   1.00000000000000000000000000161558713389263Q,
   1.00000000000000000000000000080779356694632Q,
   1.00000000000000000000000000040389678347316Q,
   1.00000000000000000000000000020194839173658Q,
   1.00000000000000000000000000010097419586829Q,
   1.00000000000000000000000000005048709793414Q,
   1.00000000000000000000000000002524354896707Q,
   1.00000000000000000000000000001262177448354Q,
   1.00000000000000000000000000000631088724177Q,
   1.00000000000000000000000000000315544362088Q,
   1.00000000000000000000000000000157772181044Q,
   1.00000000000000000000000000000078886090522Q,
   1.00000000000000000000000000000039443045261Q,
   1.00000000000000000000000000000019721522631Q,
   1.00000000000000000000000000000009860761315Q,
   1.00000000000000000000000000000004930380658Q,
   1.00000000000000000000000000000002465190329Q,
   1.00000000000000000000000000000001232595164Q,
   1.00000000000000000000000000000000616297582Q,
   1.00000000000000000000000000000000308148791Q,
   1.00000000000000000000000000000000154074396Q,
   1.00000000000000000000000000000000077037198Q,
   1.00000000000000000000000000000000038518599Q,
   1.00000000000000000000000000000000019259299Q,
   1.0000000000000000000000000000000000962965Q,
   1.00000000000000000000000000000000004814825Q,
   1.00000000000000000000000000000000002407412Q,
   1.00000000000000000000000000000000001203706Q,
   1.00000000000000000000000000000000000601853Q,
   1.00000000000000000000000000000000000300927Q,
   1.00000000000000000000000000000000000150463Q,
   1.00000000000000000000000000000000000075232Q,
   1.00000000000000000000000000000000000037616Q,
   1.00000000000000000000000000000000000018808Q,
   1.00000000000000000000000000000000000009404Q,
   1.00000000000000000000000000000000000004702Q,
   1.00000000000000000000000000000000000002351Q,
   1.00000000000000000000000000000000000001175Q,
   1.00000000000000000000000000000000000000588Q,
   1.00000000000000000000000000000000000000294Q,
   1.00000000000000000000000000000000000000147Q,
};
#define REF_ZNEG_N 160
static const __float128 REF_ZNEG[160] = { /* zeta(1-2j), j = 1..160 */
   -8.33333333333333333333333333333333333333333e-2Q,
   8.33333333333333333333333333333333333333333e-3Q,
   -3.96825396825396825396825396825396825396825e-3Q,
   4.16666666666666666666666666666666666666667e-3Q,
   -7.57575757575757575757575757575757575757576e-3Q,
   2.10927960927960927960927960927960927960928e-2Q,
   -8.33333333333333333333333333333333333333333e-2Q,
   4.43259803921568627450980392156862745098039e-1Q,
   -3.05395433027011974380395433027011974380395Q,
   2.64562121212121212121212121212121212121212e+1Q,
   -2.81460144927536231884057971014492753623188e+2Q,
   3.6075105463980463980463980463980463980464e+3Q,
   -5.48275833333333333333333333333333333333333e+4Q,
   9.74936823850574712643678160919540229885057e+5Q,
   -2.00526957966880789461434622724945305590467e+7Q,
   4.72384867721629901960784313725490196078431e+8Q,
   -1.26357247959166666666666666666666666666667e+10Q,
   3.8087931125245368811553022079337868811553e+11Q,
   -1.28508504993050833333333333333333333333333e+13Q,
   4.82414483548501703715816703621581670362158e+14Q,
   -2.00403106565162527381084216632389389864473e+16Q,
   9.16774360319533077569927536231884057971014e+17Q,
   -4.59798883436565034904379432624113475177305e+19Q,
   2.5180471921451095697089023320225526107879e+21Q,
   -1.50017334921539287337114401515151515151515e+23Q,
   9.68995788746359406564979428946540880503145e+24Q,
   -6.76458823792928209909452423017984776756707e+26Q,
   5.08906594686622896897663329159119252873563e+28Q,
   -4.11472887925579786976654860676193361581921e+30Q,
   3.56665820953755561096845746086518289877903e+32Q,
   -3.30660898765775767256802146704392100833333e+34Q,
   3.27156342364787162642112270156687034136081e+36Q,
   -3.44737825582780538782564550799534311840454e+38Q,
   3.86142798327052588930927202002326501197779e+40Q,
   -4.58929744324543321688639890060928360621742e+42Q,
   5.77753863427704318248848256878643874120689e+44Q,
   -7.69198587595071351674100759717852143844331e+46Q,
   1.08136354499716546963540333511338596071777e+49Q,
   -1.60293645220089654060671023457729429797144e+51Q,
   2.50194790415604628436566614985166234609053e+53Q,
   -4.106705233581021247975204500407165001978e+55Q,
   7.07987744084945806174529724333946914768798e+57Q,
   -1.28045468879395087901908497563228972146866e+60Q,
   2.42673403923335240780208920670921200897424e+62Q,
   -4.81432188740457693551295700659768957982793e+64Q,
   9.98755741757275306806527774081542360206091e+66Q,
   -2.16456348684351856313351361598085319850799e+69Q,
   4.89623270396205532068492245156313131818716e+71Q,
   -1.15490239239635196639542716915652390488677e+74Q,
   2.83822495706937069592641563364817647382847e+76Q,
   -7.2612008803606716303677281510706847232235e+78Q,
   1.93235142334198120033323266083801569104493e+81Q,
   -5.34501604252886240053956094627541103409618e+83Q,
   1.53560288464224230702071420132591780569398e+86Q,
   -4.57898726822657976538994744683455952840385e+88Q,
   1.41620252121948092583601799758628917703044e+91Q,
   -4.54006522960926552491870532302694057554744e+93Q,
   1.50766567588078597755948498944984130561564e+96Q,
   -5.1830949148264563776122479037512006593871e+98Q,
   1.8435647427256529118573602880594110371311e+101Q,
   -6.78055547530909588969025102131021276485284e+103Q,
   2.57733267027546045028964793299845281238115e+106Q,
   -1.0119112875704597605007955795973555449966e+109Q,
   4.10163461615422921089084567379415433179062e+111Q,
   -1.71552445340320193922071524606451754951833e+114Q,
   7.40034257052690942716920556052880600766416e+116Q,
   -3.29092253570544434867706140856814695461759e+119Q,
   1.50798315341647712056833365643992760929828e+122Q,
   -7.11698791882545486286760649290561746677477e+124Q,
   3.45804291415777717919922833642595805436647e+127Q,
   -1.7290907606676748316748920707104711549066e+130Q,
   8.89369916950329690887674533236235119570266e+132Q,
   -4.70384706196360145151382798619619181069126e+135Q,
   2.5571938231060205874985807713769970820601e+138Q,
   -1.42840675004435277005808820900988480644401e+141Q,
   8.1952152218313782940918703694984258022752e+143Q,
   -4.82764854227273717816101742818519878647927e+146Q,
   2.91896123747703236500405982200777403056232e+149Q,
   -1.81089321625689040160530678803906534955183e+152Q,
   1.15235772200211685798051266585179909297134e+155Q,
   -7.51923119519817697500081265839476626902311e+157Q,
   5.02940165764110497246840522742008199574036e+160Q,
   -3.44734204444776767046094275989746154167882e+163Q,
   2.42074586458685147183142674899499199763212e+166Q,
   -1.74094659203776765075736879891677570839047e+169Q,
   1.28194898634822427378088228065956967928127e+172Q,
   -9.66241211085609184243169684777934860657838e+174Q,
   7.45269103043008957309390945203506551161541e+177Q,
   -5.88083933116743712482207044549567919347352e+180Q,
   4.74627186549076153992212525721712652551817e+183Q,
   -3.91691325947728254682903333390900123473211e+186Q,
   3.30450714432260322283069086242650792642385e+189Q,
   -2.84928905509945827581152102173788852811016e+192Q,
   2.51033293450775865129599057985840378246681e+195Q,
   -2.25939019954752532049562261337407720550274e+198Q,
   2.07691380042876080434623778928613955784714e+201Q,
   -1.94947321749272591308734114000718210256815e+204Q,
   1.8680731471265913899839698068938640242612e+207Q,
   -1.82707526628145769438663944090360651251284e+210Q,
   1.82353863225956771810691544327749724524341e+213Q,
   -1.85686908101259450981907133715254549161803e+216Q,
   1.9287189851195602092886827869299677909591e+219Q,
   -2.04311704602864475750762704423055775845986e+222Q,
   2.20684116445278455076828336814098841855467e+225Q,
   -2.43008217964902742513903897669760365971314e+228Q,
   2.72748878790834695290272297756092991751038e+231Q,
   -3.11974215737550845945157847856452973575271e+234Q,
   3.63589387242826001493479749833015020568625e+237Q,
   -4.31683000307608832681396003788423158391719e+240Q,
   5.22042448793871999720448178212752693401608e+243Q,
   -6.42926069497693048519893333725777026563873e+246Q,
   8.06230338701308438135204143382386432708569e+249Q,
   -1.02927147379030111575795568665800387682184e+253Q,
   1.33753296997805240211378429500676576221635e+256Q,
   -1.76894809027973797575657445271711877666819e+259Q,
   2.38064790180923972522551743143614824277707e+262Q,
   -3.259712794719418482350212351303253057837e+265Q,
   4.54049623716012131918616627123158461579097e+268Q,
   -6.43285751931478506106894605686366951074989e+271Q,
   9.26870486757493111152509786937702128436813e+274Q,
   -1.35796195002851814738921378692931931969084e+278Q,
   2.02278397360493216811767187783432771925e+281Q,
   -3.06299069922083360655392703162310551515376e+284Q,
   4.71430853007426521282616631982480007193143e+287Q,
   -7.3741045871355757650658480639080892958597e+290Q,
   1.17209627670508265765085284662906818843336e+294Q,
   -1.89288666446856573885385316552466170168491e+297Q,
   3.10555175960489268960251418621546364467499e+300Q,
   -5.17549774703667979651638883790002008883873e+303Q,
   8.76015634462292151490407301348822321930279e+306Q,
   -1.50579543360546802830668914367277389155865e+310Q,
   2.62822945914037958563322916274295664790649e+313Q,
   -4.65750514126904069071074368503462755633729e+316Q,
   8.37889029540787223694025360457315104755772e+319Q,
   -1.53007895410142309619722653314432200158006e+323Q,
   2.83587549515267264152975296682458925417977e+326Q,
   -5.33407323663383065926501382653772095369853e+329Q,
   1.01808137906722206408077378369301161580844e+333Q,
   -1.97156730982693404298996294763093247637668e+336Q,
   3.87347601459887896613616175423599862971517e+339Q,
   -7.71978998456618276499703962363020021263146e+342Q,
   1.56056295285829357462938008213265936903812e+346Q,
   -3.19951946073969756902718750981600353009545e+349Q,
   6.65231719792762969207144992759959421393503e+352Q,
   -1.40250217363524560644787448402828139332028e+356Q,
   2.99802184624580021103703774311998244336616e+359Q,
   -6.49718941746780158926657737117044006743443e+362Q,
   1.42736531090036882251051184618688324479975e+366Q,
   -3.17850984984826432163314456268037014580719e+369Q,
   7.17383324426662276573272458918696066191152e+372Q,
   -1.64088932958086789779630454189000426204006e+376Q,
   3.80337480841820623891762134775125647415051e+379Q,
   -8.93270129949718202160454878008202128763731e+382Q,
   2.12560653744323926853893263742855147608208e+386Q,
   -5.12427391110071442843449071312845708241012e+389Q,
   1.25139576950695999365980709969557430811163e+393Q,
   -3.09552187455160693688766669161405508768119e+396Q,
   7.75558107927063940264075866301068252937563e+399Q,
   -1.96789059698013059908354532274664059599904e+403Q,
   5.0566048502618956016499672863654846388138e+406Q,
};
static const __float128 REF_PI = 3.14159265358979323846264338327950288419717Q;
