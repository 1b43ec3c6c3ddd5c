// Generated once from the program and frozen; see P14/P15 for their exactness.
static const std::vector<std::vector<std::array<double,3>>> TRI = {
 {},
 {{2,-0.33333333333333404,-0.33333333333333404},},
 {{0.66666666666666596,0.33333333333333393,-0.66666666666666607},{0.66666666666666596,-0.66666666666666607,-0.66666666666666607},{0.66666666666666596,-0.66666666666666607,0.33333333333333393},},
 {{-1.125,-0.33333333333333404,-0.33333333333333404},{1.0416666666666661,0.19999999999999996,-0.59999999999999998},{1.0416666666666661,-0.59999999999999998,-0.59999999999999998},{1.0416666666666661,-0.59999999999999998,0.19999999999999996},},
 {{0.446763179356022,-0.78379396366386,-0.10810301816807},{0.446763179356022,-0.10810301816807,-0.10810301816807},{0.446763179356022,-0.10810301816807,-0.78379396366386},{0.21990348731064399,0.63369514596091792,-0.81684757298045796},{0.21990348731064399,-0.81684757298045796,-0.81684757298045796},{0.21990348731064399,-0.81684757298045796,0.63369514596091792},},
 {{0.45000000000000001,-0.33333333333333404,-0.33333333333333404},{0.264788305577012,-0.88056825642045999,-0.059715871789770003},{0.264788305577012,-0.059715871789770003,-0.059715871789770003},{0.264788305577012,-0.059715871789770003,-0.88056825642045999},{0.251878361089654,0.59485397070617396,-0.79742698535308798},{0.251878361089654,-0.79742698535308798,-0.79742698535308798},{0.251878361089654,-0.79742698535308798,0.59485397070617396},},
 {{0.23357255145275799,0.0028530193163580631,-0.50142650965818003},{0.23357255145275799,-0.50142650965818003,-0.50142650965818003},{0.23357255145275799,-0.50142650965818003,0.0028530193163580631},{0.101689812740414,0.74764394203399198,-0.87382197101699599},{0.101689812740414,-0.87382197101699599,-0.87382197101699599},{0.101689812740414,-0.87382197101699599,0.74764394203399198},{0.165702151236748,-0.89370990031036601,-0.37929509793243199},{0.165702151236748,-0.37929509793243199,0.273004998242798},{0.165702151236748,0.273004998242798,-0.89370990031036601},{0.165702151236748,-0.37929509793243199,-0.89370990031036601},{0.165702151236748,0.273004998242798,-0.37929509793243199},{0.165702151236748,-0.89370990031036601,0.273004998242798},},
 {{-0.29914008893536398,-0.33333333333333404,-0.33333333333333404},{0.35123051486641599,-0.041383864316160035,-0.47930806784192004},{0.35123051486641599,-0.47930806784192004,-0.47930806784192004},{0.35123051486641599,-0.47930806784192004,-0.041383864316160035},{0.106694471217676,0.73947958839113603,-0.86973979419556802},{0.106694471217676,-0.86973979419556802,-0.86973979419556802},{0.106694471217676,-0.86973979419556802,0.73947958839113603},{0.15422752178051399,-0.90261936914936802,-0.37426900799025198},{0.15422752178051399,-0.37426900799025198,0.27688837713962},{0.15422752178051399,0.27688837713962,-0.90261936914936802},{0.15422752178051399,-0.37426900799025198,-0.90261936914936802},{0.15422752178051399,0.27688837713962,-0.37426900799025198},{0.15422752178051399,-0.90261936914936802,0.27688837713962},},
 {{0.28863121535557401,-0.33333333333333404,-0.33333333333333404},{0.19018326853456999,-0.83717035317089206,-0.081414823414553972},{0.19018326853456999,-0.081414823414553972,-0.081414823414553972},{0.19018326853456999,-0.081414823414553972,-0.83717035317089206},{0.20643474106943599,0.31772276899296004,-0.65886138449648002},{0.20643474106943599,-0.65886138449648002,-0.65886138449648002},{0.20643474106943599,-0.65886138449648002,0.31772276899296004},{0.064916995246396006,0.79781108673187595,-0.89890554336593798},{0.064916995246396006,-0.89890554336593798,-0.89890554336593798},{0.064916995246396006,-0.89890554336593798,0.79781108673187595},{0.054460628348869999,-0.98321044518008405,-0.473774340730724},{0.054460628348869999,-0.473774340730724,0.45698478591080804},{0.054460628348869999,0.45698478591080804,-0.98321044518008405},{0.054460628348869999,-0.473774340730724,-0.98321044518008405},{0.054460628348869999,0.45698478591080804,-0.473774340730724},{0.054460628348869999,-0.98321044518008405,0.45698478591080804},},
 {{0.19427159256559801,-0.33333333333333404,-0.33333333333333404},{0.062669400454278004,-0.95873007679495004,-0.020634961602523982},{0.062669400454278004,-0.020634961602523982,-0.020634961602523982},{0.062669400454278004,-0.020634961602523982,-0.95873007679495004},{0.155655082009548,-0.74835836597174599,-0.12582081701412595},{0.155655082009548,-0.12582081701412595,-0.12582081701412595},{0.155655082009548,-0.12582081701412595,-0.74835836597174599},{0.15929547785442,0.2471858575238699,-0.62359292876193395},{0.15929547785442,-0.62359292876193395,-0.62359292876193395},{0.15929547785442,-0.62359292876193395,0.2471858575238699},{0.051155351317396,0.8210819464221899,-0.91054097321109406},{0.051155351317396,-0.91054097321109406,-0.91054097321109406},{0.051155351317396,-0.91054097321109406,0.8210819464221899},{0.086567078754578003,-0.92632317589052804,-0.55607402167846798},{0.086567078754578003,-0.55607402167846798,0.48239719756899602},{0.086567078754578003,0.48239719756899602,-0.92632317589052804},{0.086567078754578003,-0.55607402167846798,-0.92632317589052804},{0.086567078754578003,0.48239719756899602,-0.55607402167846798},{0.086567078754578003,-0.92632317589052804,0.48239719756899602},},
 {{0.18163598076550799,-0.33333333333333404,-0.33333333333333404},{0.073451915512933993,-0.94231053353463001,-0.028844733232685993},{0.073451915512933993,-0.028844733232685993,-0.028844733232685993},{0.073451915512933993,-0.028844733232685993,-0.94231053353463001},{0.090642118871055999,0.56207369805985197,-0.78103684902992598},{0.090642118871055999,-0.78103684902992598,-0.78103684902992598},{0.090642118871055999,-0.78103684902992598,0.56207369805985197},{0.14551583369084001,-0.71658556117024008,-0.38412032247175798},{0.14551583369084001,-0.38412032247175798,0.10070588364199806},{0.14551583369084001,0.10070588364199806,-0.71658556117024008},{0.14551583369084001,-0.38412032247175798,-0.71658556117024008},{0.14551583369084001,0.10070588364199806,-0.38412032247175798},{0.14551583369084001,-0.71658556117024008,0.10070588364199806},{0.056654485062113999,-0.94999293047462796,-0.50665487872019399},{0.056654485062113999,-0.50665487872019399,0.45664780919482206},{0.056654485062113999,0.45664780919482206,-0.94999293047462796},{0.056654485062113999,-0.50665487872019399,-0.94999293047462796},{0.056654485062113999,0.45664780919482206,-0.50665487872019399},{0.056654485062113999,-0.94999293047462796,0.45664780919482206},{0.018843333927466,-0.98091836919940201,-0.86639349797560006},{0.018843333927466,-0.86639349797560006,0.84731186717499996},{0.018843333927466,0.84731186717499996,-0.98091836919940201},{0.018843333927466,-0.86639349797560006,-0.98091836919940201},{0.018843333927466,0.84731186717499996,-0.86639349797560006},{0.018843333927466,-0.98091836919940201,0.84731186717499996},},
 {{0.001854012657922,-1.138444193083034,0.069222096541516009},{0.001854012657922,0.069222096541516009,0.069222096541516009},{0.001854012657922,0.069222096541516009,-1.138444193083034},{0.15429906982962599,-0.59587721186342002,-0.20206139406829005},{0.15429906982962599,-0.20206139406829005,-0.20206139406829005},{0.15429906982962599,-0.20206139406829005,-0.59587721186342002},{0.118645954761548,0.18676039827487001,-0.593380199137436},{0.118645954761548,-0.593380199137436,-0.593380199137436},{0.118645954761548,-0.593380199137436,0.18676039827487001},{0.072369081006836006,0.52259635086967404,-0.76129817543483802},{0.072369081006836006,-0.76129817543483802,-0.76129817543483802},{0.072369081006836006,-0.76129817543483802,0.52259635086967404},{0.027319462005356,0.87054020755489603,-0.93527010377744801},{0.027319462005356,-0.93527010377744801,-0.93527010377744801},{0.027319462005356,-0.93527010377744801,0.87054020755489603},{0.10467422392440801,-0.89964372337901,-0.28675870347741395},{0.10467422392440801,-0.28675870347741395,0.18640242685642594},{0.10467422392440801,0.18640242685642594,-0.89964372337901},{0.10467422392440801,-0.28675870347741395,-0.89964372337901},{0.10467422392440801,0.18640242685642594,-0.28675870347741395},{0.10467422392440801,-0.89964372337901,0.18640242685642594},{0.041415319278282001,-0.95795596692766805,-0.65702203939191595},{0.041415319278282001,-0.65702203939191595,0.61497800631958399},{0.041415319278282001,0.61497800631958399,-0.95795596692766805},{0.041415319278282001,-0.65702203939191595,-0.95795596692766805},{0.041415319278282001,0.61497800631958399,-0.65702203939191595},{0.041415319278282001,-0.95795596692766805,0.61497800631958399},},
 {{0.051462132880909998,-0.95286955909521998,-0.023565220452389957},{0.051462132880909998,-0.023565220452389957,-0.023565220452389957},{0.051462132880909998,-0.023565220452389957,-0.95286955909521998},{0.087385089076076006,-0.75889756917784201,-0.12055121541108005},{0.087385089076076006,-0.12055121541108005,-0.12055121541108005},{0.087385089076076006,-0.12055121541108005,-0.75889756917784201},{0.12571644843577001,-0.084841540048464004,-0.45757922997576805},{0.12571644843577001,-0.45757922997576805,-0.45757922997576805},{0.12571644843577001,-0.45757922997576805,-0.084841540048464004},{0.069592225861418,0.48969541783365611,-0.74484770891682794},{0.069592225861418,-0.74484770891682794,-0.74484770891682794},{0.069592225861418,-0.74484770891682794,0.48969541783365611},{0.012332522103118001,0.91473059818715807,-0.95736529909358004},{0.012332522103118001,-0.95736529909358004,-0.95736529909358004},{0.012332522103118001,-0.95736529909358004,0.91473059818715807},{0.080743115532762005,-0.769313010930604,-0.44857346062897197},{0.080743115532762005,-0.44857346062897197,0.21788647155957608},{0.080743115532762005,0.21788647155957608,-0.769313010930604},{0.080743115532762005,-0.44857346062897197,-0.769313010930604},{0.080743115532762005,0.21788647155957608,-0.44857346062897197},{0.080743115532762005,-0.769313010930604,0.21788647155957608},{0.044713546404606001,-0.95432333555548599,-0.43734883802012003},{0.044713546404606001,-0.43734883802012003,0.39167217357560591},{0.044713546404606001,0.39167217357560591,-0.95432333555548599},{0.044713546404606001,-0.43734883802012003,-0.95432333555548599},{0.044713546404606001,0.39167217357560591,-0.43734883802012003},{0.044713546404606001,-0.95432333555548599,0.39167217357560591},{0.034632462217318,-0.94853189890334,-0.76749616818480604},{0.034632462217318,-0.76749616818480604,0.71602806708814604},{0.034632462217318,0.71602806708814604,-0.94853189890334},{0.034632462217318,-0.76749616818480604,-0.94853189890334},{0.034632462217318,0.71602806708814604,-0.76749616818480604},{0.034632462217318,-0.94853189890334,0.71602806708814604},},
 {{0.105041846801604,-0.33333333333333404,-0.33333333333333404},{0.022560290418659999,-0.98019273975881804,-0.0099036301205900346},{0.022560290418659999,-0.0099036301205900346,-0.0099036301205900346},{0.022560290418659999,-0.0099036301205900346,-0.98019273975881804},{0.062847036724908004,-0.87486654043829604,-0.062566729780851982},{0.062847036724908004,-0.062566729780851982,-0.062566729780851982},{0.062847036724908004,-0.062566729780851982,-0.87486654043829604},{0.094145005008388002,-0.65808534720510603,-0.17095732639744599},{0.094145005008388002,-0.17095732639744599,-0.17095732639744599},{0.094145005008388002,-0.17095732639744599,-0.65808534720510603},{0.094727173072710003,0.082401711828673951,-0.54120085591433797},{0.094727173072710003,-0.54120085591433797,-0.54120085591433797},{0.094727173072710003,-0.54120085591433797,0.082401711828673951},{0.062335058091588,0.54230201921467991,-0.77115100960733995},{0.062335058091588,-0.77115100960733995,-0.77115100960733995},{0.062335058091588,-0.77115100960733995,0.54230201921467991},{0.015951542930147999,0.900754434546164,-0.950377217273082},{0.015951542930147999,-0.950377217273082,-0.950377217273082},{0.015951542930147999,-0.950377217273082,0.900754434546164},{0.073696805457464001,-0.81029234324084198,-0.46241000588247805},{0.073696805457464001,-0.46241000588247805,0.27270234912332003},{0.073696805457464001,0.27270234912332003,-0.81029234324084198},{0.073696805457464001,-0.46241000588247805,-0.81029234324084198},{0.073696805457464001,0.27270234912332003,-0.46241000588247805},{0.073696805457464001,-0.81029234324084198,0.27270234912332003},{0.034802926607644002,-0.96379845344238602,-0.41653986653142405},{0.034802926607644002,-0.41653986653142405,0.38033831997380996},{0.034802926607644002,0.38033831997380996,-0.96379845344238602},{0.034802926607644002,-0.41653986653142405,-0.96379845344238602},{0.034802926607644002,0.38033831997380996,-0.41653986653142405},{0.034802926607644002,-0.96379845344238602,0.38033831997380996},{0.031043573678089999,-0.95553384665181995,-0.74728522901666206},{0.031043573678089999,-0.74728522901666206,0.70281907566848201},{0.031043573678089999,0.70281907566848201,-0.95553384665181995},{0.031043573678089999,-0.74728522901666206,-0.95553384665181995},{0.031043573678089999,0.70281907566848201,-0.74728522901666206},{0.031043573678089999,-0.95553384665181995,0.70281907566848201},},
 {{0.043767162738858001,-0.95585564144871404,-0.022072179275641979},{0.043767162738858001,-0.022072179275641979,-0.022072179275641979},{0.043767162738858001,-0.022072179275641979,-0.95585564144871404},{0.065576707088250002,-0.67057887736181598,-0.16471056131909201},{0.065576707088250002,-0.16471056131909201,-0.16471056131909201},{0.065576707088250002,-0.16471056131909201,-0.67057887736181598},{0.103548209014584,-0.093910113235354031,-0.45304494338232204},{0.103548209014584,-0.45304494338232204,-0.45304494338232204},{0.103548209014584,-0.45304494338232204,-0.093910113235354031},{0.084325177473986004,0.29117787034982601,-0.645588935174914},{0.084325177473986004,-0.645588935174914,-0.645588935174914},{0.084325177473986004,-0.645588935174914,0.29117787034982601},{0.028867399339554001,0.7528004676365101,-0.87640023381825394},{0.028867399339554001,-0.87640023381825394,-0.87640023381825394},{0.028867399339554001,-0.87640023381825394,0.7528004676365101},{0.0098468072048000007,0.92243615500519605,-0.96121807750259802},{0.0098468072048000007,-0.96121807750259802,-0.96121807750259802},{0.0098468072048000007,-0.96121807750259802,0.92243615500519605},{0.049331506425127999,-0.88575048519270405,-0.65546662435728797},{0.049331506425127999,-0.65546662435728797,0.54121710954999203},{0.049331506425127999,0.54121710954999203,-0.88575048519270405},{0.049331506425127999,-0.65546662435728797,-0.88575048519270405},{0.049331506425127999,0.54121710954999203,-0.65546662435728797},{0.049331506425127999,-0.88575048519270405,0.54121710954999203},{0.077143021574122006,-0.81416750128605597,-0.32627708040730996},{0.077143021574122006,-0.32627708040730996,0.14044458169336593},{0.077143021574122006,0.14044458169336593,-0.81416750128605597},{0.077143021574122006,-0.32627708040730996,-0.81416750128605597},{0.077143021574122006,0.14044458169336593,-0.32627708040730996},{0.077143021574122006,-0.81416750128605597,0.14044458169336593},{0.028872616227068,-0.97070609988869205,-0.40325423572748398},{0.028872616227068,-0.40325423572748398,0.37396033561617603},{0.028872616227068,0.37396033561617603,-0.97070609988869205},{0.028872616227068,-0.40325423572748398,-0.97070609988869205},{0.028872616227068,0.37396033561617603,-0.40325423572748398},{0.028872616227068,-0.97070609988869205,0.37396033561617603},{0.010020457677002,-0.99746333813425603,-0.76205100460608599},{0.010020457677002,-0.76205100460608599,0.75951434274034191},{0.010020457677002,0.75951434274034191,-0.99746333813425603},{0.010020457677002,-0.76205100460608599,-0.99746333813425603},{0.010020457677002,0.75951434274034191,-0.76205100460608599},{0.010020457677002,-0.99746333813425603,0.75951434274034191},},
 {{0.0038337512856979998,-1.0278916674329719,0.013945833716485945},{0.0038337512856979998,0.013945833716485945,0.013945833716485945},{0.0038337512856979998,0.013945833716485945,-1.0278916674329719},{0.088498054542289997,-0.72562541713208994,-0.13718729143395403},{0.088498054542289997,-0.13718729143395403,-0.13718729143395403},{0.088498054542289997,-0.13718729143395403,-0.72562541713208994},{0.10237309743770399,-0.11077457938857804,-0.44461271030571203},{0.10237309743770399,-0.44461271030571203,-0.44461271030571203},{0.10237309743770399,-0.44461271030571203,-0.11077457938857804},{0.047375471741375998,0.4941404358349839,-0.74707021791749195},{0.047375471741375998,-0.74707021791749195,-0.74707021791749195},{0.047375471741375998,-0.74707021791749195,0.4941404358349839},{0.026579551380042001,0.71676645610125611,-0.85838322805062806},{0.026579551380042001,-0.85838322805062806,-0.85838322805062806},{0.026579551380042001,-0.85838322805062806,0.71676645610125611},{0.0094978332163839999,0.9241393190357059,-0.96206965951785395},{0.0094978332163839999,-0.96206965951785395,-0.96206965951785395},{0.0094978332163839999,-0.96206965951785395,0.9241393190357059},{0.077100145199185996,-0.73253167606675795,-0.47737725771982598},{0.077100145199185996,-0.47737725771982598,0.20990893378658204},{0.077100145199185996,0.20990893378658204,-0.73253167606675795},{0.077100145199185996,-0.47737725771982598,-0.73253167606675795},{0.077100145199185996,0.20990893378658204,-0.47737725771982598},{0.077100145199185996,-0.73253167606675795,0.20990893378658204},{0.054431628641248002,-0.92726664520616597,-0.22390646581946205},{0.054431628641248002,-0.22390646581946205,0.15117311102562803},{0.054431628641248002,0.15117311102562803,-0.92726664520616597},{0.054431628641248002,-0.22390646581946205,-0.92726664520616597},{0.054431628641248002,0.15117311102562803,-0.22390646581946205},{0.054431628641248002,-0.92726664520616597,0.15117311102562803},{0.0043641547335940001,-1.020349766253142,-0.42857555990016805},{0.0043641547335940001,-0.42857555990016805,0.44892532615330993},{0.0043641547335940001,0.44892532615330993,-1.020349766253142},{0.0043641547335940001,-0.42857555990016805,-1.020349766253142},{0.0043641547335940001,0.44892532615330993,-0.42857555990016805},{0.0043641547335940001,-1.020349766253142,0.44892532615330993},{0.043010639695461997,-0.92631226024824398,-0.56880067185543193},{0.043010639695461997,-0.56880067185543193,0.49511293210367602},{0.043010639695461997,0.49511293210367602,-0.92631226024824398},{0.043010639695461997,-0.56880067185543193,-0.92631226024824398},{0.043010639695461997,0.49511293210367602,-0.56880067185543193},{0.043010639695461997,-0.92631226024824398,0.49511293210367602},{0.015347885262098,-0.975080381337602,-0.79284876684722794},{0.015347885262098,-0.79284876684722794,0.76792914818483204},{0.015347885262098,0.76792914818483204,-0.975080381337602},{0.015347885262098,-0.79284876684722794,-0.975080381337602},{0.015347885262098,0.76792914818483204,-0.79284876684722794},{0.015347885262098,-0.975080381337602,0.76792914818483204},},
 {{0.093751394855283998,-0.33333333333333404,-0.33333333333333404},{0.012811757157169999,-0.98952216779375402,-0.0052389161031239917},{0.012811757157169999,-0.0052389161031239917,-0.0052389161031239917},{0.012811757157169999,-0.0052389161031239917,-0.98952216779375402},{0.083420593478773994,-0.65387775419741001,-0.17306112290129605},{0.083420593478773994,-0.17306112290129605,-0.17306112290129605},{0.083420593478773994,-0.17306112290129605,-0.65387775419741001},{0.053782968500128002,-0.881834396267966,-0.059082801866017998},{0.053782968500128002,-0.059082801866017998,-0.059082801866017998},{0.053782968500128002,-0.059082801866017998,-0.881834396267966},{0.084265045523299997,0.03778500012191599,-0.518892500060958},{0.084265045523299997,-0.518892500060958,-0.518892500060958},{0.084265045523299997,-0.518892500060958,0.03778500012191599},{0.060000533685545997,0.408136823109708,-0.704068411554854},{0.060000533685545997,-0.704068411554854,-0.704068411554854},{0.060000533685545997,-0.704068411554854,0.408136823109708},{0.028400197850047999,0.69813924937010396,-0.84906962468505198},{0.028400197850047999,-0.84906962468505198,-0.84906962468505198},{0.028400197850047999,-0.84906962468505198,0.69813924937010396},{0.0071649247025460001,0.9336143895079001,-0.96680719475395005},{0.0071649247025460001,-0.96680719475395005,-0.96680719475395005},{0.0071649247025460001,-0.96680719475395005,0.9336143895079001},{0.065546294921253995,-0.79284861550949604,-0.40688880684022599},{0.065546294921253995,-0.40688880684022599,0.19973742234972192},{0.065546294921253995,0.19973742234972192,-0.79284861550949604},{0.065546294921253995,-0.40688880684022599,-0.79284861550949604},{0.065546294921253995,0.19973742234972192,-0.40688880684022599},{0.065546294921253995,-0.79284861550949604,0.19973742234972192},{0.030596612496882,-0.95983317668916801,-0.32455387319384199},{0.030596612496882,-0.32455387319384199,0.28438704988300989},{0.030596612496882,0.28438704988300989,-0.95983317668916801},{0.030596612496882,-0.32455387319384199,-0.95983317668916801},{0.030596612496882,0.28438704988300989,-0.32455387319384199},{0.030596612496882,-0.95983317668916801,0.28438704988300989},{0.004772488385678,-1.0086820052282781,-0.590503436714376},{0.004772488385678,-0.590503436714376,0.59918544194265411},{0.004772488385678,0.59918544194265411,-1.0086820052282781},{0.004772488385678,-0.590503436714376,-1.0086820052282781},{0.004772488385678,0.59918544194265411,-0.590503436714376},{0.004772488385678,-1.0086820052282781,0.59918544194265411},{0.038169585511797999,-0.91611642706398,-0.621283015738754},{0.038169585511797999,-0.621283015738754,0.53739944280273599},{0.038169585511797999,0.53739944280273599,-0.91611642706398},{0.038169585511797999,-0.621283015738754,-0.91611642706398},{0.038169585511797999,0.53739944280273599,-0.621283015738754},{0.038169585511797999,-0.91611642706398,0.53739944280273599},{0.013700109093084001,-0.97136535953863801,-0.82943276863468607},{0.013700109093084001,-0.82943276863468607,0.80079812817332208},{0.013700109093084001,0.80079812817332208,-0.97136535953863801},{0.013700109093084001,-0.82943276863468607,-0.97136535953863801},{0.013700109093084001,0.80079812817332208,-0.82943276863468607},{0.013700109093084001,-0.97136535953863801,0.80079812817332208},},
 {{0.066874398581606001,-0.33333333333333404,-0.33333333333333404},{0.010186830881014,-0.98868216222709604,-0.0056589188864519802},{0.010186830881014,-0.0056589188864519802,-0.0056589188864519802},{0.010186830881014,-0.0056589188864519802,-0.98868216222709604},{0.029341729055275999,-0.92870529049849804,-0.035647354750749982},{0.029341729055275999,-0.035647354750749982,-0.035647354750749982},{0.029341729055275999,-0.035647354750749982,-0.92870529049849804},{0.048701756707344002,-0.80095987608312602,-0.09952006195843599},{0.048701756707344002,-0.09952006195843599,-0.09952006195843599},{0.048701756707344002,-0.09952006195843599,-0.80095987608312602},{0.062215101737937997,-0.60106495750958799,-0.19946752124520595},{0.062215101737937997,-0.19946752124520595,-0.19946752124520595},{0.062215101737937997,-0.19946752124520595,-0.60106495750958799},{0.062514222437240002,-0.0085650718838099493,-0.49571746405809403},{0.062514222437240002,-0.49571746405809403,-0.49571746405809403},{0.062514222437240002,-0.49571746405809403,-0.0085650718838099493},{0.049631308679330001,0.35181198136615399,-0.675905990683078},{0.049631308679330001,-0.675905990683078,-0.675905990683078},{0.049631308679330001,-0.675905990683078,0.35181198136615399},{0.028112146141114,0.69649647095701606,-0.84824823547850803},{0.028112146141114,-0.84824823547850803,-0.84824823547850803},{0.028112146141114,-0.84824823547850803,0.69649647095701606},{0.0063893523475579998,0.93738109212871201,-0.96869054606435601},{0.0063893523475579998,-0.96869054606435601,-0.96869054606435601},{0.0063893523475579998,-0.96869054606435601,0.93738109212871201},{0.016239310637986001,-0.97962614234616197,-0.33136026527268403},{0.016239310637986001,-0.33136026527268403,0.31098640761884599},{0.016239310637986001,0.31098640761884599,-0.97962614234616197},{0.016239310637986001,-0.33136026527268403,-0.97962614234616197},{0.016239310637986001,0.31098640761884599,-0.33136026527268403},{0.016239310637986001,-0.97962614234616197,0.31098640761884599},{0.053611484566326001,-0.72911825665792795,-0.41555692440611203},{0.053611484566326001,-0.41555692440611203,0.14467518106404009},{0.053611484566326001,0.14467518106404009,-0.72911825665792795},{0.053611484566326001,-0.41555692440611203,-0.72911825665792795},{0.053611484566326001,0.14467518106404009,-0.41555692440611203},{0.053611484566326001,-0.72911825665792795,0.14467518106404009},{0.036919986421643999,-0.89115215141883397,-0.36085022915361997},{0.036919986421643999,-0.36085022915361997,0.25200238057245605},{0.036919986421643999,0.25200238057245605,-0.89115215141883397},{0.036919986421643999,-0.36085022915361997,-0.89115215141883397},{0.036919986421643999,0.25200238057245605,-0.36085022915361997},{0.036919986421643999,-0.89115215141883397,0.25200238057245605},{0.016953737068656001,-0.97426287833272596,-0.61859155161541601},{0.016953737068656001,-0.61859155161541601,0.59285442994814197},{0.016953737068656001,0.59285442994814197,-0.97426287833272596},{0.016953737068656001,-0.61859155161541601,-0.97426287833272596},{0.016953737068656001,0.59285442994814197,-0.61859155161541601},{0.016953737068656001,-0.97426287833272596,0.59285442994814197},{0.036585593540049997,-0.865668435172952,-0.63903357670250793},{0.036585593540049997,-0.63903357670250793,0.50470201187545793},{0.036585593540049997,0.50470201187545793,-0.865668435172952},{0.036585593540049997,-0.63903357670250793,-0.865668435172952},{0.036585593540049997,0.50470201187545793,-0.63903357670250793},{0.036585593540049997,-0.865668435172952,0.50470201187545793},{0.013331264008330001,-0.97067363555034403,-0.83857737264087207},{0.013331264008330001,-0.83857737264087207,0.80925100819121609},{0.013331264008330001,0.80925100819121609,-0.97067363555034403},{0.013331264008330001,-0.83857737264087207,-0.97067363555034403},{0.013331264008330001,0.80925100819121609,-0.83857737264087207},{0.013331264008330001,-0.97067363555034403,0.80925100819121609},},
 {{0.061619879875293999,-0.33333333333333404,-0.33333333333333404},{0.018144873358808,-0.97337923452368602,-0.013310382738157989},{0.018144873358808,-0.013310382738157989,-0.013310382738157989},{0.018144873358808,-0.013310382738157989,-0.97337923452368602},{0.037522633879188,-0.87684237696782796,-0.061578811516086018},{0.037522633879188,-0.061578811516086018,-0.061578811516086018},{0.037522633879188,-0.061578811516086018,-0.87684237696782796},{0.038882195970953999,-0.74512558354802194,-0.12743720822598803},{0.038882195970953999,-0.12743720822598803,-0.12743720822598803},{0.038882195970953999,-0.12743720822598803,-0.74512558354802194},{0.055507897221620001,-0.57938468269366394,-0.21030765865316803},{0.055507897221620001,-0.21030765865316803,-0.21030765865316803},{0.055507897221620001,-0.21030765865316803,-0.57938468269366394},{0.064512450702914004,0.0008217247873720801,-0.50041086239368604},{0.064512450702914004,-0.50041086239368604,-0.50041086239368604},{0.064512450702914004,-0.50041086239368604,0.0008217247873720801},{0.050148065233843998,0.35427122502463004,-0.67713561251231402},{0.050148065233843998,-0.67713561251231402,-0.67713561251231402},{0.050148065233843998,-0.67713561251231402,0.35427122502463004},{0.030543855943663999,0.69360709005851406,-0.84680354502925803},{0.030543855943663999,-0.84680354502925803,-0.84680354502925803},{0.030543855943663999,-0.84680354502925803,0.69360709005851406},{0.013587844045926001,0.90299024258619998,-0.95149512129309999},{0.013587844045926001,-0.95149512129309999,-0.95149512129309999},{0.013587844045926001,-0.95149512129309999,0.90299024258619998},{-0.0044461974598400001,0.82741453113214192,-0.91370726556606996},{-0.0044461974598400001,-0.91370726556606996,-0.91370726556606996},{-0.0044461974598400001,-0.91370726556606996,0.82741453113214192},{0.012663828152811999,-0.98313892759515997,-0.28217701011811203},{0.012663828152811999,-0.28217701011811203,0.26531593771327211},{0.012663828152811999,0.26531593771327211,-0.98313892759515997},{0.012663828152811999,-0.28217701011811203,-0.98313892759515997},{0.012663828152811999,0.26531593771327211,-0.28217701011811203},{0.012663828152811999,-0.98313892759515997,0.26531593771327211},{0.054515076098276001,-0.73762689652562408,-0.41119504649608596},{0.054515076098276001,-0.41119504649608596,0.14882194302170992},{0.054515076098276001,0.14882194302170992,-0.73762689652562408},{0.054515076098276001,-0.41119504649608596,-0.73762689652562408},{0.054515076098276001,0.14882194302170992,-0.41119504649608596},{0.054515076098276001,-0.73762689652562408,0.14882194302170992},{0.035353571298929999,-0.89959369686864998,-0.34996439671637203},{0.035353571298929999,-0.34996439671637203,0.2495580935850239},{0.035353571298929999,0.2495580935850239,-0.89959369686864998},{0.035353571298929999,-0.34996439671637203,-0.89959369686864998},{0.035353571298929999,0.2495580935850239,-0.34996439671637203},{0.035353571298929999,-0.89959369686864998,0.2495580935850239},{0.036758969276140002,-0.86734147237816805,-0.63052488066790802},{0.036758969276140002,-0.63052488066790802,0.49786635304607407},{0.036758969276140002,0.49786635304607407,-0.86734147237816805},{0.036758969276140002,-0.63052488066790802,-0.86734147237816805},{0.036758969276140002,0.49786635304607407,-0.63052488066790802},{0.036758969276140002,-0.86734147237816805,0.49786635304607407},{0.016209465616383999,-0.97600761086752796,-0.56240639997335795},{0.016209465616383999,-0.56240639997335795,0.53841401084088591},{0.016209465616383999,0.53841401084088591,-0.97600761086752796},{0.016209465616383999,-0.56240639997335795,-0.97600761086752796},{0.016209465616383999,0.53841401084088591,-0.56240639997335795},{0.016209465616383999,-0.97600761086752796,0.53841401084088591},{0.015268258141450001,-0.97028379881975002,-0.79764080572718399},{0.015268258141450001,-0.79764080572718399,0.7679246045469339},{0.015268258141450001,0.7679246045469339,-0.97028379881975002},{0.015268258141450001,-0.79764080572718399,-0.97028379881975002},{0.015268258141450001,0.7679246045469339,-0.79764080572718399},{0.015268258141450001,-0.97028379881975002,0.7679246045469339},{9.2375321588e-05,-1.070444030575898,-0.95825048943482805},{9.2375321588e-05,-0.95825048943482805,1.02869452001072},{9.2375321588e-05,1.02869452001072,-1.070444030575898},{9.2375321588e-05,-0.95825048943482805,-1.070444030575898},{9.2375321588e-05,1.02869452001072,-0.95825048943482805},{9.2375321588e-05,-1.070444030575898,1.02869452001072},},
 {{0.065812662777837996,-0.33333333333333404,-0.33333333333333404},{0.020661463782544,-0.95843994829202606,-0.020780025853987971},{0.020661463782544,-0.020780025853987971,-0.020780025853987971},{0.020661463782544,-0.020780025853987971,-0.95843994829202606},{0.044774494526032001,-0.81814757079156997,-0.090926214604214017},{0.044774494526032001,-0.090926214604214017,-0.090926214604214017},{0.044774494526032001,-0.090926214604214017,-0.81814757079156997},{0.060532251738935998,-0.60566672259772403,-0.19716663870113804},{0.060532251738935998,-0.19716663870113804,-0.19716663870113804},{0.060532251738935998,-0.19716663870113804,-0.60566672259772403},{0.060981935604396,-0.022206617612389956,-0.48889669119380397},{0.060981935604396,-0.48889669119380397,-0.48889669119380397},{0.060981935604396,-0.48889669119380397,-0.022206617612389956},{0.048318425483282003,0.29168823139148192,-0.64584411569573996},{0.048318425483282003,-0.64584411569573996,-0.64584411569573996},{0.048318425483282003,-0.64584411569573996,0.29168823139148192},{0.032101607173601998,0.55975578708819196,-0.77987789354409598},{0.032101607173601998,-0.77987789354409598,-0.77987789354409598},{0.032101607173601998,-0.77987789354409598,0.55975578708819196},{0.016169160523568,0.77788550299264192,-0.88894275149631996},{0.016169160523568,-0.88894275149631996,-0.88894275149631996},{0.016169160523568,-0.88894275149631996,0.77788550299264192},{0.0041587240549699998,0.94951254489108594,-0.97475627244554197},{0.0041587240549699998,-0.97475627244554197,-0.97475627244554197},{0.0041587240549699998,-0.97475627244554197,0.94951254489108594},{0.0077697538099620002,-0.99277716430317597,-0.20849042528611395},{0.0077697538099620002,-0.20849042528611395,0.20126758958928992},{0.0077697538099620002,0.20126758958928992,-0.99277716430317597},{0.0077697538099620002,-0.20849042528611395,-0.99277716430317597},{0.0077697538099620002,0.20126758958928992,-0.20849042528611395},{0.0077697538099620002,-0.99277716430317597,0.20126758958928992},{0.051148321224044002,-0.73106649093844001,-0.38414003223912796},{0.051148321224044002,-0.38414003223912796,0.11520652317756808},{0.051148321224044002,0.11520652317756808,-0.73106649093844001},{0.051148321224044002,-0.38414003223912796,-0.73106649093844001},{0.051148321224044002,0.11520652317756808,-0.38414003223912796},{0.051148321224044002,-0.73106649093844001,0.11520652317756808},{0.017761807146675999,-0.97110794844777004,-0.47086610318695998},{0.017761807146675999,-0.47086610318695998,0.44197405163472991},{0.017761807146675999,0.44197405163472991,-0.97110794844777004},{0.017761807146675999,-0.47086610318695998,-0.97110794844777004},{0.017761807146675999,0.44197405163472991,-0.47086610318695998},{0.017761807146675999,-0.97110794844777004,0.44197405163472991},{0.032249093523462002,-0.90613284232364399,-0.28292129558809798},{0.032249093523462002,-0.28292129558809798,0.18905413791174208},{0.032249093523462002,0.18905413791174208,-0.90613284232364399},{0.032249093523462002,-0.28292129558809798,-0.90613284232364399},{0.032249093523462002,0.18905413791174208,-0.28292129558809798},{0.032249093523462002,-0.90613284232364399,0.18905413791174208},{0.0049838836349819999,-0.99427775929886597,-0.68438518806281001},{0.0049838836349819999,-0.68438518806281001,0.67866294736167809},{0.0049838836349819999,0.67866294736167809,-0.99427775929886597},{0.0049838836349819999,-0.68438518806281001,-0.99427775929886597},{0.0049838836349819999,0.67866294736167809,-0.68438518806281001},{0.0049838836349819999,-0.99427775929886597,0.67866294736167809},{0.036485680237902003,-0.55227715180416803,-0.84989880604817802},{0.036485680237902003,-0.84989880604817802,0.40217595785234606},{0.036485680237902003,0.40217595785234606,-0.55227715180416803},{0.036485680237902003,-0.84989880604817802,-0.55227715180416803},{0.036485680237902003,0.40217595785234606,-0.84989880604817802},{0.036485680237902003,-0.55227715180416803,0.40217595785234606},{0.020517127472397999,-0.93070585036648001,-0.71515679777323404},{0.020517127472397999,-0.71515679777323404,0.64586264813971406},{0.020517127472397999,0.64586264813971406,-0.93070585036648001},{0.020517127472397999,-0.71515679777323404,-0.93070585036648001},{0.020517127472397999,0.64586264813971406,-0.71515679777323404},{0.020517127472397999,-0.93070585036648001,0.64586264813971406},{0.0075998577106039999,-0.979677761407444,-0.86901074383412402},{0.0075998577106039999,-0.86901074383412402,0.84868850524156803},{0.0075998577106039999,0.84868850524156803,-0.979677761407444},{0.0075998577106039999,-0.86901074383412402,-0.979677761407444},{0.0075998577106039999,0.84868850524156803,-0.86901074383412402},{0.0075998577106039999,-0.979677761407444,0.84868850524156803},},
 {{0.066114111083247995,-0.33333333333333404,-0.33333333333333404},{0.0017340383713259999,-1.0038018574087999,0.0019009287044000622},{0.0017340383713259999,0.0019009287044000622,0.0019009287044000622},{0.0017340383713259999,0.0019009287044000622,-1.0038018574087999},{0.023320105432896001,-0.95285183173891397,-0.023574084130541961},{0.023320105432896001,-0.023574084130541961,-0.023574084130541961},{0.023320105432896001,-0.023574084130541961,-0.95285183173891397},{0.045753872712842002,-0.82054672780113003,-0.089726636099433987},{0.045753872712842002,-0.089726636099433987,-0.089726636099433987},{0.045753872712842002,-0.089726636099433987,-0.82054672780113003},{0.060897965347875997,-0.607985037273158,-0.19600748136342205},{0.060897965347875997,-0.19600748136342205,-0.19600748136342205},{0.060897965347875997,-0.19600748136342205,-0.607985037273158},{0.061249783450709999,-0.023571639037685999,-0.48821418048115806},{0.061249783450709999,-0.48821418048115806,-0.48821418048115806},{0.061249783450709999,-0.48821418048115806,-0.023571639037685999},{0.0487361153536,0.29404697601957608,-0.64702348800978804},{0.0487361153536,-0.64702348800978804,-0.64702348800978804},{0.0487361153536,-0.64702348800978804,0.29404697601957608},{0.031994864064048001,0.58331657865296593,-0.79165828932648397},{0.031994864064048001,-0.79165828932648397,-0.79165828932648397},{0.031994864064048001,-0.79165828932648397,0.58331657865296593},{0.015396603631204001,0.78772414463627993,-0.89386207231813997},{0.015396603631204001,-0.89386207231813997,-0.89386207231813997},{0.015396603631204001,-0.89386207231813997,0.78772414463627993},{-0.0012641209949759999,0.833525139215884,-0.916762569607942},{-0.0012641209949759999,-0.916762569607942,-0.916762569607942},{-0.0012641209949759999,-0.916762569607942,0.833525139215884},{0.0035022686023859998,0.95367231437271194,-0.97683615718635597},{0.0035022686023859998,-0.97683615718635597,-0.97683615718635597},{0.0035022686023859998,-0.97683615718635597,0.95367231437271194},{0.032931678379152,-0.90251683267032201,-0.31028845954199802},{0.032931678379152,-0.31028845954199802,0.21280529221232003},{0.032931678379152,0.21280529221232003,-0.90251683267032201},{0.032931678379152,-0.31028845954199802,-0.90251683267032201},{0.032931678379152,0.21280529221232003,-0.31028845954199802},{0.032931678379152,-0.90251683267032201,0.21280529221232003},{0.0096780670809700001,-0.98737176810279004,-0.24431346081029204},{0.0096780670809700001,-0.24431346081029204,0.23168522891308196},{0.0096780670809700001,0.23168522891308196,-0.98737176810279004},{0.0096780670809700001,-0.24431346081029204,-0.98737176810279004},{0.0096780670809700001,0.23168522891308196,-0.24431346081029204},{0.0096780670809700001,-0.98737176810279004,0.23168522891308196},{0.051609813069300001,-0.73136695890530401,-0.38672904187528601},{0.051609813069300001,-0.38672904187528601,0.11809600078059002},{0.051609813069300001,0.11809600078059002,-0.73136695890530401},{0.051609813069300001,-0.38672904187528601,-0.73136695890530401},{0.051609813069300001,0.11809600078059002,-0.38672904187528601},{0.051609813069300001,-0.73136695890530401,0.11809600078059002},{0.016942182108882001,-0.97205221207521597,-0.50116127445051606},{0.016942182108882001,-0.50116127445051606,0.47321348652573203},{0.016942182108882001,0.47321348652573203,-0.97205221207521597},{0.016942182108882001,-0.50116127445051606,-0.97205221207521597},{0.016942182108882001,0.47321348652573203,-0.50116127445051606},{0.016942182108882001,-0.97205221207521597,0.47321348652573203},{0.036709828212559997,-0.84890173418047199,-0.57444855039439602},{0.036709828212559997,-0.57444855039439602,0.42335028457486801},{0.036709828212559997,0.42335028457486801,-0.84890173418047199},{0.036709828212559997,-0.57444855039439602,-0.84890173418047199},{0.036709828212559997,0.42335028457486801,-0.57444855039439602},{0.036709828212559997,-0.84890173418047199,0.42335028457486801},{0.0014088093558159999,-1.0167363064164541,-0.70606912789352205},{0.0014088093558159999,-0.70606912789352205,0.7228054343099739},{0.0014088093558159999,0.7228054343099739,-1.0167363064164541},{0.0014088093558159999,-0.70606912789352205,-1.0167363064164541},{0.0014088093558159999,0.7228054343099739,-0.70606912789352205},{0.0014088093558159999,-1.0167363064164541,0.7228054343099739},{0.020225369854924,-0.94662787348257205,-0.72454604234215392},{0.020225369854924,-0.72454604234215392,0.67117391582472608},{0.020225369854924,0.67117391582472608,-0.94662787348257205},{0.020225369854924,-0.72454604234215392,-0.94662787348257205},{0.020225369854924,0.67117391582472608,-0.72454604234215392},{0.020225369854924,-0.94662787348257205,0.67117391582472608},{0.0071478187718999999,-0.978904561411718,-0.88060778170198595},{0.0071478187718999999,-0.88060778170198595,0.85951234311370595},{0.0071478187718999999,0.85951234311370595,-0.978904561411718},{0.0071478187718999999,-0.88060778170198595,-0.978904561411718},{0.0071478187718999999,0.85951234311370595,-0.88060778170198595},{0.0071478187718999999,-0.978904561411718,0.85951234311370595},},
};
static const std::vector<std::vector<std::array<double,2>>> LIN = {
 {},
 {{2,0},},
 {{1,-0.57735026918962573},{1,0.57735026918962573},},
 {{1,-0.57735026918962573},{1,0.57735026918962573},},
 {{0.55555555555555558,-0.7745966692414834},{0.88888888888888884,0},{0.55555555555555558,0.7745966692414834},},
 {{0.55555555555555558,-0.7745966692414834},{0.88888888888888884,0},{0.55555555555555558,0.7745966692414834},},
 {{0.34785484513745385,-0.86113631159405257},{0.65214515486254609,-0.33998104358485626},{0.65214515486254609,0.33998104358485626},{0.34785484513745385,0.86113631159405257},},
 {{0.34785484513745385,-0.86113631159405257},{0.65214515486254609,-0.33998104358485626},{0.65214515486254609,0.33998104358485626},{0.34785484513745385,0.86113631159405257},},
 {{0.23692688505618908,-0.90617984593866396},{0.47862867049936647,-0.53846931010568311},{0.56888888888888889,0},{0.47862867049936647,0.53846931010568311},{0.23692688505618908,0.90617984593866396},},
 {{0.23692688505618908,-0.90617984593866396},{0.47862867049936647,-0.53846931010568311},{0.56888888888888889,0},{0.47862867049936647,0.53846931010568311},{0.23692688505618908,0.90617984593866396},},
 {{0.17132449237917036,-0.93246951420315205},{0.36076157304813861,-0.66120938646626448},{0.46791393457269104,-0.2386191860831969},{0.46791393457269104,0.2386191860831969},{0.36076157304813861,0.66120938646626448},{0.17132449237917036,0.93246951420315205},},
 {{0.17132449237917036,-0.93246951420315205},{0.36076157304813861,-0.66120938646626448},{0.46791393457269104,-0.2386191860831969},{0.46791393457269104,0.2386191860831969},{0.36076157304813861,0.66120938646626448},{0.17132449237917036,0.93246951420315205},},
 {{0.1294849661688697,-0.94910791234275849},{0.27970539148927664,-0.74153118559939446},{0.38183005050511892,-0.40584515137739718},{0.4179591836734694,0},{0.38183005050511892,0.40584515137739718},{0.27970539148927664,0.74153118559939446},{0.1294849661688697,0.94910791234275849},},
 {{0.1294849661688697,-0.94910791234275849},{0.27970539148927664,-0.74153118559939446},{0.38183005050511892,-0.40584515137739718},{0.4179591836734694,0},{0.38183005050511892,0.40584515137739718},{0.27970539148927664,0.74153118559939446},{0.1294849661688697,0.94910791234275849},},
 {{0.10122853629037626,-0.96028985649753629},{0.22238103445337448,-0.79666647741362673},{0.31370664587788727,-0.52553240991632899},{0.36268378337836199,-0.18343464249564981},{0.36268378337836199,0.18343464249564981},{0.31370664587788727,0.52553240991632899},{0.22238103445337448,0.79666647741362673},{0.10122853629037626,0.96028985649753629},},
 {{0.10122853629037626,-0.96028985649753629},{0.22238103445337448,-0.79666647741362673},{0.31370664587788727,-0.52553240991632899},{0.36268378337836199,-0.18343464249564981},{0.36268378337836199,0.18343464249564981},{0.31370664587788727,0.52553240991632899},{0.22238103445337448,0.79666647741362673},{0.10122853629037626,0.96028985649753629},},
 {{0.081274388361574412,-0.96816023950762609},{0.1806481606948574,-0.83603110732663577},{0.26061069640293544,-0.61337143270059036},{0.31234707704000286,-0.32425342340380892},{0.33023935500125978,0},{0.31234707704000286,0.32425342340380892},{0.26061069640293544,0.61337143270059036},{0.1806481606948574,0.83603110732663577},{0.081274388361574412,0.96816023950762609},},
 {{0.081274388361574412,-0.96816023950762609},{0.1806481606948574,-0.83603110732663577},{0.26061069640293544,-0.61337143270059036},{0.31234707704000286,-0.32425342340380892},{0.33023935500125978,0},{0.31234707704000286,0.32425342340380892},{0.26061069640293544,0.61337143270059036},{0.1806481606948574,0.83603110732663577},{0.081274388361574412,0.96816023950762609},},
 {{0.066671344308688138,-0.97390652851717174},{0.14945134915058059,-0.86506336668898454},{0.21908636251598204,-0.67940956829902444},{0.26926671930999635,-0.43339539412924721},{0.29552422471475287,-0.14887433898163122},{0.29552422471475287,0.14887433898163122},{0.26926671930999635,0.43339539412924721},{0.21908636251598204,0.67940956829902444},{0.14945134915058059,0.86506336668898454},{0.066671344308688138,0.97390652851717174},},
 {{0.066671344308688138,-0.97390652851717174},{0.14945134915058059,-0.86506336668898454},{0.21908636251598204,-0.67940956829902444},{0.26926671930999635,-0.43339539412924721},{0.29552422471475287,-0.14887433898163122},{0.29552422471475287,0.14887433898163122},{0.26926671930999635,0.43339539412924721},{0.21908636251598204,0.67940956829902444},{0.14945134915058059,0.86506336668898454},{0.066671344308688138,0.97390652851717174},},
 {{0.055668567116173663,-0.97822865814605697},{0.12558036946490461,-0.88706259976809532},{0.18629021092773426,-0.73015200557404936},{0.23319376459199048,-0.51909612920681181},{0.26280454451024665,-0.26954315595234496},{0.27292508677790062,0},{0.26280454451024665,0.26954315595234496},{0.23319376459199048,0.51909612920681181},{0.18629021092773426,0.73015200557404936},{0.12558036946490461,0.88706259976809532},{0.055668567116173663,0.97822865814605697},},
 {{0.055668567116173663,-0.97822865814605697},{0.12558036946490461,-0.88706259976809532},{0.18629021092773426,-0.73015200557404936},{0.23319376459199048,-0.51909612920681181},{0.26280454451024665,-0.26954315595234496},{0.27292508677790062,0},{0.26280454451024665,0.26954315595234496},{0.23319376459199048,0.51909612920681181},{0.18629021092773426,0.73015200557404936},{0.12558036946490461,0.88706259976809532},{0.055668567116173663,0.97822865814605697},},
};
struct Rk{int n,order;std::vector<std::vector<double>> a,b;std::vector<double> d;};
static const std::vector<Rk> RK = {
 {1,1,{{1,},},{{1,},},{0,}},
 {2,2,{{1,},{0.5,0.5,},},{{1,},{0,0.5,},},{0,1,}},
 {3,3,{{1,},{0.75,0.25,},{0.33333333333333331,0,0.66666666666666663,},},{{1,},{0,0.25,},{0,0,0.66666666666666663,},},{0,1,0.5,}},
 {4,3,{{1,},{0,1,},{0.66666666666666663,0,0.33333333333333331,},{0,0,0,1,},},{{0.5,},{0,0.5,},{0,0,0.16666666666666666,},{0,0,0,0.5,},},{0,0.5,1,0.5,}},
 {5,3,{{1,},{0,1,},{0.35590977506332699,0,0.64409022493667401,},{0.367933791638137,0,0,0.632066208361863,},{0,0,0.237593836598569,0,0.76240616340143097,},},{{0.37726891533136803,},{0,0.37726891533136803,},{0,0,0.242995220537396,},{0,0,0,0.23845893284628999,},{0,0,0,0,0.287632146308408,},},{0,0.37726891533136803,0.75453783066273605,0.7289856616121877,0.6992261359316696,}},
 {6,3,{{1,},{0,1,},{0,0,1,},{0.47676981128519602,0.098511733286063996,0,0.42471845542873998,},{0,0,0,0,1,},{0,0,0.15522170256009099,0,0,0.84477829743990895,},},{{0.28422072133426102,},{0,0.28422072133426102,},{0,0,0.28422072133426102,},{0,0,0,0.12071378576593,},{0,0,0,0,0.28422072133426102,},{0,0,0,0,0,0.24010349706590001,},},{0,0.28422072133426102,0.56844144266852203,0.85266216400278305,0.5108542189581724,0.79507494029243342,}},
 {7,3,{{1,},{0,1,},{0,0,1,},{0.18496258807107199,0,0,0.81503741192892798,},{0.18071865657038,0.31483103440379301,0,0,0.50445030902582599,},{0,0,0,0,0,1,},{0,0,0,0.120199,0,0,0.87980100000000006,},},{{0.233213863663009,},{0,0.233213863663009,},{0,0,0.233213863663009,},{0,0,0,0.19007802386584499,},{0,0,0,0,0.11764480559391199,},{0,0,0,0,0,0.233213863663009,},{0,0,0,0,0,0,0.20518179046457899,},},{0,0.233213863663009,0.466427727326018,0.69964159098902701,0.76031209546337908,0.57460743904081713,0.80782130270382613,}},
 {8,3,{{1,},{0,1,},{0,0,1,},{0,0,0,1,},{0.42136696708535898,0.0059494011075750001,0,0,0.57268363180706705,},{0,0.0042540106663650004,0,0,0,0.99574598933363501,},{0,0,0.104380143093325,0.24326524090672599,0,0,0.65235461599995004,},{0,0,0,0,0,0,0,1,},},{{0.19580401533014299,},{0,0.19580401533014299,},{0,0,0.19580401533014299,},{0,0,0,0.19580401533014299,},{0,0,0,0,0.11213375462167301,},{0,0,0,0,0,0.194971062960412,},{0,0,0,0,0,0,0.12773365323194399,},{0,0,0,0,0,0,0,0.19580401533014299,},},{0,0.19580401533014299,0.39160803066028599,0.58741204599042895,0.78321606132057198,0.56183368973403747,0.75524765855532916,0.80419598466985742,}},
 {5,4,{{1,},{0.44437049406734003,0.55562950593266003,},{0.62010185138539997,0,0.37989814861459997,},{0.17807995410773,0,0,0.82192004589226997,},{0.0068332588403899998,0,0.51723167208978005,0.12759831133287999,0.34833675773694001,},},{{0.39175222700391998,},{0,0.36841059262958997,},{0,0,0.25189177424738002,},{0,0,0,0.54497475021236996,},{0,0,0,0.084604163382119998,0.22600748319395,},},{0,0.39175222700391998,0.58607968896779727,0.47454236302686681,0.93501063100923854,}},
 {6,4,{{1,},{0.30948026455053002,0.69051973544946998,},{0.54205244285556997,0,0.45794755714442997,},{0.35984960863377002,0,0,0.64015039136622998,},{0,0,0,0,1,},{0.057762828901160003,0,0.44216432622405,0,0.10115567086469,0.39891717401009003,},},{{0.39270746575721999,},{0,0.30154043149172,},{0,0,0.19997937335131999,},{0,0,0,0.27954483459696,},{0,0,0,0,0.43668618869442999,},{0,0,0.091509315316799997,0,0.044173284374719998,0.14911300530735999,},},{0,0.39270746575721999,0.57271268685542731,0.46225174924238582,0.57545547278419762,1.0121416614786276,}},
 {7,4,{{1,},{0.20161507213829,0.79838492786171,},{0.19469598207920999,0,0.80530401792078998,},{0.58143386885601001,0,0,0.41856613114398999,},{0.01934367892154,0,0,0,0.98065632107846001,},{0,0,0,0,0,1,},{0.060063045588469997,0,0.30152730794242,0.10518998496676001,0.014837911545849999,0,0.51838174995649999,},},{{0.30111872706067999,},{0,0.24040865318216001,},{0,0,0.24249212077314999,},{0,0,0,0.12603810060080001,},{0,0,0,0,0.29529398308715998,},{0,0,0,0,0,0.30111872706067999,},{0,0,0.090795519141580003,0.028883593548800001,0,0,0.15609445267839001,},},{0,0.30111872706067999,0.48081730636431097,0.62969622947418102,0.3896076151677661,0.677365153641734,0.97848388070241399,}},
 {8,4,{{1,},{0.10645325745007,0.89354674254993005,},{0,0,1,},{0.57175518477257004,0,0,0.42824481522743002,},{0.19161667219044001,0,0,0,0.80838332780956001,},{0,0,0,0,0,1,},{0,0,0,0,0,0,1,},{0.025804353279229999,0,0.03629901341774,0.31859181340255999,0.051867689801030001,0.0394407621732,0.0051163374741099998,0.52288003045213005,},},{{0.24120020561311001,},{0,0.21552365802796999,},{0,0,0.24120020561311001,},{0,0,0,0.1032927374856,},{0,0,0,0,0.19498222488188,},{0,0,0,0,0,0.24120020561311001,},{0,0,0,0,0,0,0.24120020561311001,},{0,0,0.0087553294999099997,0.061955758351009999,0,0.0095131199457100003,0,0.12611877085604001,},},{0,0.24120020561311001,0.43104731605593782,0.67224752166904778,0.39117925318985913,0.51120501134555685,0.7524052169586668,0.99360542257177675,}},
};
